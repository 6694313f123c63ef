"""Extraction (clang-18 on /repo's working tree, every run), name resolution, contract lookup, proof runner."""
import os, re, subprocess, sys, tempfile, time, multiprocessing, signal, hashlib, shutil
import z3
from . import ir
from .engine import *

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LL = "/usr/lib/llvm-18/bin/"


class ExtractError(Exception):
    pass


def gen_config(outdir, logging=False):
    txt = open(REPO + "/src/umpire/config.hpp.in").read()
    cm = open(REPO + "/CMakeLists.txt").read()
    m = re.search(r"project\(Umpire[^)]*VERSION ([0-9]+)\.([0-9]+)\.([0-9]+)", cm)
    v = m.groups() if m else ("2024", "2", "0")
    on = {"UMPIRE_ENABLE_FILE_RESOURCE"} | ({"UMPIRE_ENABLE_LOGGING"} if logging else set())
    txt = re.sub(r"#cmakedefine (\w+)", lambda k: ("#define " + k.group(1)) if k.group(1) in on else "/* #undef %s */" % k.group(1), txt)
    for a, b in (("@Umpire_VERSION_MAJOR@", v[0]), ("@Umpire_VERSION_MINOR@", v[1]), ("@Umpire_VERSION_PATCH@", v[2]),
                 ("@UMPIRE_VERSION_RC@", "")):
        txt = txt.replace(a, b)
    os.makedirs(outdir + "/include/umpire", exist_ok=True)
    open(outdir + "/include/umpire/config.hpp", "w").write(txt)


INC = lambda out: ["-I" + REPO + "/src", "-I" + REPO + "/src/tpl", "-I" + out + "/include", "-I" + HERE + "/support/stub",
                   "-I" + HERE + "/support"]
CXXFLAGS = ["-std=c++14", "-DFMT_HEADER_ONLY", "-DNDEBUG", "-D_GLIBCXX_ASSERTIONS=0", "-UGLIBCXX_ASSERTIONS"]


def compile_tu(src, out, extra=()):
    """-> (bitcode path, layout text)"""
    base = out + "/" + re.sub(r"[^A-Za-z0-9]", "_", src)
    cc = "clang" if src.endswith(".c") else "clang++"
    std = ["-std=c99"] if src.endswith(".c") else ["-std=c++14", "-DFMT_HEADER_ONLY"]
    cmd = [LL + cc] + std + ["-DNDEBUG", "-O1", "-Xclang", "-disable-llvm-passes", "-fno-threadsafe-statics",
                             "-flto", "-fwhole-program-vtables", "-fvisibility=hidden",
                             "-Xclang", "-fdump-record-layouts", "-emit-llvm", "-c", "-w"] + list(extra) + INC(out) + \
          [src, "-o", base + ".bc"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise ExtractError("clang failed on %s: %s" % (src, r.stderr[:2000]))
    r2 = subprocess.run([LL + "opt", "-passes=sroa,simplifycfg<bonus-inst-threshold=0;no-switch-to-lookup>", base + ".bc", "-o",
                         base + ".o.bc"], capture_output=True, text=True)
    if r2.returncode:
        raise ExtractError("opt failed on %s: %s" % (src, r2.stderr[:2000]))
    return base + ".o.bc", r.stdout


def parse_layouts(txt, into):
    cur = None
    for line in txt.split("\n"):
        m = re.match(r"\s*(\d+)(?::[\d-]+)? \| (\s*)(.*)$", line)
        if line.startswith("*** Dumping AST Record Layout"):
            cur = "new"
            continue
        if not m:
            if cur and "[sizeof" in line:
                cur = None
            continue
        off, ind, rest = int(m.group(1)), len(m.group(2)), m.group(3)
        if cur == "new" and ind == 0:
            name = re.sub(r"\b(class|struct|union) ", "", rest)
            name = re.sub(r" \(empty\)$", "", name)
            cur = into.setdefault(name, {"fields": {}, "bases": {}})
            fields_done = bool(cur["fields"] or cur["bases"])
            continue
        if cur and cur != "new" and ind == 2:
            if rest.endswith("(base)") or rest.endswith("(primary base)") or "(base) (empty)" in rest:
                b = re.sub(r"\b(class|struct) ", "", rest)
                b = re.sub(r" \((primary )?base\)( \(empty\))?$", "", b)
                cur["bases"][b] = off
            elif "vtable pointer)" in rest:
                pass
            else:
                f = rest.split(" ")[-1]
                cur["fields"].setdefault(f, (off, rest))
    return into


_STD_BASES = {
    "_ZTISt13runtime_error": "_ZTISt9exception", "_ZTISt9bad_alloc": "_ZTISt9exception",
    "_ZTISt11logic_error": "_ZTISt9exception", "_ZTISt12out_of_range": "_ZTISt11logic_error",
    "_ZTISt16invalid_argument": "_ZTISt11logic_error", "_ZTISt12length_error": "_ZTISt11logic_error",
    "_ZTISt9exception": None,
}


class World:
    def __init__(self, tus, out, extra=()):
        self.out = out
        gen_config(out)
        self.layouts = {}
        self.mods = []
        self.contracts = {}  # short name -> handler
        self.rx = []  # (compiled regex, handler)
        self.scaled = None  # f(ex, st, op, a, b): products and quotients with a symbolic element size
        self.bits = None  # f(ex, st, op, a, b): single-bit operations on 32-bit words
        self.merge = set()  # functions in which `if (c) { stores }` is merged into one state
        self.virt = {}  # "Class::method" -> handler
        self.ctor_alias = {}
        self.unrolls = {}
        self.guarded = {}  # heap key -> f(ex, st, idx, write): called on every access by the code
        self.cands = {}
        self.all_cands = []
        self.typeids = {}
        self.noinline = []
        self.regions = None  # f(ex, st) -> [(base, stride, count, name)]: array objects owned by the structure under proof
        self.node_size = 0  # set by a spec whose map values are wider than one word: nodes occupy disjoint memory of this size
        self.indirect_h = None
        self.tus = tus
        from concurrent.futures import ThreadPoolExecutor
        srcs = [t if t.startswith("/") else REPO + "/src/" + t for t in tus]
        for s in srcs:
            if not os.path.exists(s):
                raise ExtractError("source file missing: " + s)
        with ThreadPoolExecutor(8) as tp:
            res = list(tp.map(lambda s: compile_tu(s, out, extra), srcs))
        for bc, lay in res:
            self.mods.append(ir.Module(bc))
            parse_layouts(lay, self.layouts)
        self._zts = {}
        self._vt = None
        self.defs = {}
        for m in self.mods:
            for f in m.fns.values():
                if not f.decl:
                    self.defs.setdefault(f.name, f)
        self.byshort = {}
        for f in self.defs.values():
            self.byshort.setdefault(f.short, []).append(f)
        self.mdefs = {}
        for m in self.mods:
            for n, t in m.aliases.items():
                if t in m.fns:
                    self.ctor_alias[n] = t

    # --- names
    def fn(self, short, nargs=None, pred=None):
        c = self.byshort.get(short, [])
        if nargs is not None:
            c = [f for f in c if ir.NumParams(f.raw) == nargs]
        if pred is not None:
            c = [f for f in c if pred(f)]
        # C1/C2 constructors and D1/D2 destructors: same body; prefer the complete object variant
        if len(c) > 1:
            c2 = [f for f in c if re.search(r"(C2|D2)E", f.name)]
            if c2:
                c = c2
        if not c:
            raise ExtractError("function not found in the current source: " + short)
        return c[0]

    def fns_rx(self, rx):
        return [f for n, fs in sorted(self.byshort.items()) if re.search(rx, n) for f in fs if not f.decl]

    def fns(self, short):
        return self.byshort.get(short, [])

    def struct_by_zts(self, mod, zts):
        k = (id(mod), zts)
        if k in self._zts:
            return self._zts[k]
        d = ir.demangle_many([zts])[0]
        d = re.sub(r"^typeinfo name for ", "", d)
        r = None
        base = ir.strip_templates(d) if "<" in d else d
        for pre in ("class.", "struct."):
            t = ir._L.LLVMGetTypeByName2
            t.restype = ir.VP
            t.argtypes = [ir.VP, ir.CP]
            p = t(ir.Module.ctx, (pre + d).encode())
            if not p and "<" in d:
                p = t(ir.Module.ctx, (pre + base).encode())
            if p:
                r = mod.ty(p)
                break
        self._zts[k] = r
        return r

    def struct(self, name):
        for m in self.mods:
            for pre in ("class.", "struct."):
                t = ir._L.LLVMGetTypeByName2
                t.restype = ir.VP
                t.argtypes = [ir.VP, ir.CP]
                for nm in ([name, re.sub(r"<[^<>]*>$", "", name), ir.strip_templates(name)] if "<" in name else [name]):
                    p = t(ir.Module.ctx, (pre + nm).encode())
                    if p:
                        return m.ty(p)
        return None

    def field(self, cls, name):
        """-> (key, byte adjustment of the object address)"""
        lay = self.layouts.get(cls)
        if lay is None:
            raise ExtractError("no layout for class " + cls)
        if name not in lay["fields"]:
            raise ExtractError("no field %s in %s" % (name, cls))
        off = lay["fields"][name][0]
        s = self.struct(cls)
        if s is None:
            raise ExtractError("no LLVM type for class " + cls)
        ex = Executor(self)
        s2, so, sb = ex.descend(s, off, z3.IntVal(0), None)
        return ("F", s2.name, so), simp(sb).as_long()

    def off(self, cls, name):
        lay = self.layouts.get(cls)
        if lay is None or name not in lay["fields"]:
            raise ExtractError("no field %s in %s" % (name, cls))
        return lay["fields"][name][0]

    def base_off(self, cls, base):
        lay = self.layouts.get(cls)
        if lay is None:
            raise ExtractError("no layout for class " + cls)
        if base in lay["bases"]:
            return lay["bases"][base]
        for b, o in lay["bases"].items():
            try:
                return o + self.base_off(b, base)
            except ExtractError:
                pass
        raise ExtractError("%s is not a base of %s" % (base, cls))

    def sizeof(self, cls):
        s = self.struct(cls)
        if s is None:
            raise ExtractError("no LLVM type for class " + cls)
        return s.size

    # --- contracts
    def contract(self, short, h):
        self.contracts[short] = h

    def lookup(self, short, name, f):
        h = self.contracts.get(short)
        if h is not None:
            return h
        for rx, h in self.rx:
            if rx.search(short):
                return h
        return None

    def definition(self, name, mod):
        f = mod.fns.get(name)
        if f is not None and not f.decl:
            return f
        t = mod.aliases.get(name) or self.ctor_alias.get(name)
        if t:
            return self.definition(t, mod)
        f = self.defs.get(name)
        if f is not None:
            return f
        # C1 constructor declared, C2 defined (or the reverse); same for destructors
        for a, b in (("C1E", "C2E"), ("C2E", "C1E"), ("D1E", "D2E"), ("D2E", "D1E")):
            if a in name:
                f = self.defs.get(name.replace(a, b))
                if f is not None:
                    return f
        return None

    def may_inline(self, f):
        for rx in self.noinline:
            if rx.search(f.short):
                return False
        return True

    pure = ()

    def pure_contract(self, ins):
        f = ins.mod.fns.get(getattr(ins.x.get('callee'), "name", None))
        return f is not None and f.short in self.pure

    def unroll_limit(self, fn):
        return self.unrolls.get(fn.short, 0)

    def loop_candidates(self, fn):
        return self.cands.get(fn.short, []) + self.all_cands

    def typeid(self, n):
        return self.typeids.setdefault(n, len(self.typeids) + 2)

    def exc_bases(self, ty):
        if ty in _STD_BASES:
            return [_STD_BASES[ty]] if _STD_BASES[ty] else []
        for m in self.mods:
            c = m.global_init(ty)
            if c is not None and c.kind == 'agg':
                return [o.name for o in c.ops[2:] if o.kind == 'global']
        return []

    def exc_match(self, ety, cty):
        if ety is None:
            return None
        seen, todo = set(), [ety]
        while todo:
            x = todo.pop()
            if x == cty:
                return True
            if x in seen:
                continue
            seen.add(x)
            todo += self.exc_bases(x)
        return False

    def global_init(self, name, mod):
        c = mod.global_init(name) if mod else None
        if c is None:
            for m in self.mods:
                c = m.global_init(name)
                if c is not None:
                    break
        return c

    def memcpy_type(self, ex, ins, d, s, n, mod):
        return None

    # --- virtual dispatch
    def _vtables(self):
        if self._vt is not None:
            return self._vt
        self._vt = {}
        self._bases = {}
        for m in self.mods:
            for g in m.globals:
                if g.startswith("_ZTV"):
                    c = m.global_init(g)
                    if c is None or c.kind != 'agg' or not c.ops or c.ops[0].kind != 'agg':
                        continue
                    self._vt.setdefault(g[4:], [o.name if o.kind == 'fn' else None for o in c.ops[0].ops[2:]])
                elif g.startswith("_ZTI"):
                    c = m.global_init(g)
                    if c is not None and c.kind == 'agg' and len(c.ops) >= 3:
                        bs = [o.name[4:] for o in c.ops[2:] if o.kind == 'global' and o.name.startswith("_ZTI")]
                        self._bases.setdefault(g[4:], bs)
        return self._vt

    def slot_method(self, cls, slot):
        vt = self._vtables()
        order = [cls] + [c for c in vt if self._derives(c, cls)]
        for c in order:
            t = vt.get(c)
            if t and slot < len(t) and t[slot] and t[slot] != "__cxa_pure_virtual":
                d = ir.strip_templates(ir.demangle_many([t[slot]])[0])
                return d.split("::")[-1], t[slot], c
        return None

    def _derives(self, c, base, depth=0):
        bs = self._bases.get(c, [])
        if not bs or depth > 10:
            return False
        return bs[0] == base or self._derives(bs[0], base, depth + 1)

    def virtual(self, ex, vt, ins, args, st, mod):
        if vt.cls is None:
            return None
        mangled = vt.cls[4:]
        cls = re.sub(r"^typeinfo name for ", "", ir.demangle_many([vt.cls])[0])
        cls = ir.strip_templates(cls) if "<" in cls else cls
        r = self.slot_method(mangled, vt.slot)
        if r is None:
            raise Unsupported("cannot resolve virtual slot %d of %s" % (vt.slot, cls))
        meth, fname, owner = r
        if meth.startswith("~"):
            meth = "~"
        h = self.virt.get(cls + "::" + meth) or self.virt.get("*::" + meth)
        if h is not None:
            ex.used_contracts.add("virtual " + cls + "::" + meth)
            r = h(ex, st, args, ins)
            if r is not NotImplemented:
                if r is None:
                    raise Unsupported("virtual handler must return outcomes")
                return r
        d = self.defs.get(fname)
        if d is not None and owner == mangled:
            return d
        return None

    def indirect(self, ex, tgt, ins, args, st, mod):
        if self.indirect_h:
            return self.indirect_h(ex, tgt, ins, args, st, mod)
        return None


# ------------------------------------------------------------------ proof runner
def _z3try(o, axs, ms, **opts):
    s = z3.Solver()
    s.set("timeout", ms)
    for k, v in opts.items():
        s.set(k, v)
    s.add(*axs)
    s.add(*o.pc)
    s.add(z3.Not(o.goal))
    return s, s.check()


def _solve_one(o, axs, ms):
    """portfolio: z3 (two configurations) and cvc5, growing time limits"""
    t = time.time()
    z = "z3 " + z3.get_version_string()
    q = any(has_q(f) for f in o.pc) or has_q(o.goal)
    if not q:
        s, r = _z3try(o, axs, ms)
        if r == z3.unknown:
            r2 = _cvc5(o, axs, ms / 1000)
            if r2 in ("unsat", "sat"):
                return r2, time.time() - t, None, "cvc5"
        return str(r), time.time() - t, _model(s) if r == z3.sat else None, z
    s, r = _z3try(o, axs, 1500, mbqi=False)
    if r == z3.unsat:
        return "unsat", time.time() - t, None, z
    for lim in (3, ms / 1000.0):
        r2 = _cvc5(o, axs, lim)
        if r2 == "unsat":
            return "unsat", time.time() - t, None, "cvc5"
        if r2 == "sat":
            return "sat", time.time() - t, None, "cvc5"
        _, r = _z3try(o, axs, int(lim * 1000), auto_config=False, mbqi=False)
        if r == z3.unsat:
            return "unsat", time.time() - t, None, z
    s, r = _z3try(o, axs, ms // 2)
    return str(r), time.time() - t, _model(s) if r == z3.sat else None, z


def _model(s):
    m = s.model()
    model = {}
    for d in m.decls():
        if d.arity() == 0 and d.range() in (I, B):
            v = m[d]
            if z3.is_int_value(v) or z3.is_bool(v):
                model[d.name()] = str(v)
    return model


def _cvc5(o, axs, secs):
    try:
        s = z3.Solver()  # a solver that has been run prints a transformed problem
        s.add(*axs)
        s.add(*o.pc)
        s.add(z3.Not(o.goal))
        txt = "(set-logic ALL)\n" + re.sub(r"\(set-info[^)]*\)", "", s.to_smt2())
        p = subprocess.run(["cvc5", "--tlimit=%d" % int(secs * 1000), "-q"], input=txt, capture_output=True, text=True,
                           timeout=secs + 10)
        return p.stdout.strip().split("\n")[0] if p.stdout else "unknown"
    except Exception:
        return "unknown"


_G = {}


def _worker(k):
    o, axs, ms = _G["obls"][k]
    try:
        return (k,) + _solve_one(o, axs, ms)
    except Exception as e:
        return (k, "error %s" % e, 0.0, None, "-")


def solve_all(items, procs=8):
    """items: list of (Obl, axioms, ms)"""
    if not items:
        return
    _G["obls"] = items
    ctx = multiprocessing.get_context("fork")
    # trivial ones first, in-process
    rest = []
    for k, (o, axs, ms) in enumerate(items):
        if z3.is_true(simp(o.goal)):
            o.status, o.time, o.solver = "unsat", 0.0, "simplifier"
        else:
            rest.append(k)
    if rest:
        with ctx.Pool(min(procs, len(rest))) as pool:
            for k, r, t, m, who in pool.imap_unordered(_worker, rest, chunksize=max(1, min(8, len(rest) // (procs * 4)))):
                o = items[k][0]
                o.status, o.time, o.model, o.solver = r, t, m, who


class Verified:
    """Result of verifying one function against its contract."""

    def __init__(self, name):
        self.name, self.obls, self.error = name, [], None
        self.paths_ret = self.paths_exc = 0
        self.inlined, self.contracts = set(), set()
        self.reach = 0
        self.loops = []
        self.exec_s = 0.0


def verify(world, short, setup, post, label=None, nargs=None, pred=None, ms=20000, budget=240, fn=None, post_exc=None,
           dom=None, need_ret=True):
    """setup(ex, st) -> args ; post(ex, st0, st, ret, args) emits obligations with ex.oblige; post_exc likewise"""
    v = Verified(label or short)
    t0 = time.time()
    ex = Executor(world, dom).init()
    ex.deadline = t0 + budget
    ex.cur = v.name
    try:
        f = fn or world.fn(short, nargs, pred)
        st = State()
        args = setup(ex, st)
        st0 = st.copy()
        ex.st0 = st0
        outs = ex.run(f, args, st)
        canary = []
        for s, kind, val in outs:
            if kind == 'ret':
                v.paths_ret += 1
                post(ex, st0, s, val, args)
                canary.append(s)
            else:
                v.paths_exc += 1
                if post_exc is not None:
                    post_exc(ex, st0, s, val, args)
        axs = ex.axs()
        v.obls = ex.obls
        v.items = [(o, axs, ms) for o in ex.obls]
        v.canary = [(s.pc, axs) for s in canary]
        v.inlined, v.contracts, v.loops = ex.inlined, ex.used_contracts, ex.loop_info
        v.houdini = ex.houdini_stats
        if need_ret and v.paths_ret == 0:
            v.error = "no path of %s reaches a normal return" % v.name
    except (Unsupported, ExtractError) as e:
        v.error = "%s: %s" % (type(e).__name__, e)
        v.items = []
        v.canary = []
        v.obls = []
    v.exec_s = time.time() - t0
    return v


def _reach(k):
    pc, axs = _G["can"][k]
    s = z3.Solver()
    s.set("timeout", 3000)
    s.add(*axs)
    s.add(*pc)
    r = s.check()
    return str(r)


def solve_verified(vs, procs=8):
    items = [it for v in vs for it in v.items]
    solve_all(items, procs)
    # vacuity guard: at least one returning path of every function must not be contradictory
    can, own = [], []
    for v in vs:
        step = max(1, len(v.canary) // 8)
        for c in v.canary[::step][:10]:
            can.append(c)
            own.append(v)
    if can:
        _G["can"] = can
        ctx = multiprocessing.get_context("fork")
        with ctx.Pool(min(procs, len(can))) as pool:
            for v, r in zip(own, pool.map(_reach, range(len(can)), chunksize=1)):
                if r != "unsat":
                    v.reach += 1
    for v in vs:
        if v.canary and v.reach == 0 and not v.error:
            v.error = "vacuous: every returning path of %s is contradictory" % v.name
