"""Interprocedural, trace-partitioned abstract interpretation of dumped MIR.

Values are hash-consed terms over the entry values of the analysed function;
memory reachable through `&mut` is a store of cells; shared references are
transparent snapshots.  Branches partition the state by the fact they test,
loops are abstracted by havocking what the body changes (`mu` values) and
recording the loop's step relation.  Nothing of the program is executed and no
solver is consulted: facts live in a variant/constant/linear-inequality domain.
"""
import json
from . import terms as T
from .terms import *
from .facts import Facts


class Unsupported(Exception):
    pass


def strip_generics(p):
    out = []
    i = 0
    n = len(p)
    while i < n:
        if p.startswith("::<", i) and not p.startswith("::<impl", i):
            d = 0
            j = i + 2
            while j < n:
                if p[j] == "<":
                    d += 1
                elif p[j] == ">" and p[j - 1] != "-":
                    d -= 1
                    if d == 0:
                        break
                j += 1
            i = j + 1
            continue
        if p.startswith("::<impl", i):
            d = 0
            j = i + 2
            while j < n:
                if p[j] == "<":
                    d += 1
                elif p[j] == ">" and p[j - 1] != "-":
                    d -= 1
                    if d == 0:
                        break
                j += 1
            i = j + 1
            continue
        out.append(p[i])
        i += 1
    return "".join(out)


def norm_path(p):
    p = strip_generics(p)
    for a in ("alloc::", "std::"):
        if p.startswith(a):
            p = p[len(a):]
            break
    else:
        if p.startswith("core::"):
            p = p[6:]
    return p


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.ptr = d["ptr"]
        T.set_ptr_width(self.ptr)
        self.types = d["types"]
        self.adts = d["adts"]
        T.ADTS.clear()
        T.ADTS.update(self.adts)
        self.bodies = {b["key"]: b for b in d["bodies"]}
        self.roots = d["roots"]
        self.items = d["items"]
        self._loops = {}
        for b in self.bodies.values():
            b["np"] = strip_generics(b["p"])

    def root(self, path):
        r = [x for x in self.roots if strip_generics(x["p"]) == path]
        if len(r) != 1:
            return None
        return self.bodies[r[0]["key"]]

    def root_by(self, pred):
        return [self.bodies[x["key"]] for x in self.roots if pred(x)]

    def consts(self, path):
        for i in self.items:
            if i["k"] == "const" and i["p"] == path:
                return i
        return None

    def loops(self, body):
        k = body["key"]
        if k in self._loops:
            return self._loops[k]
        bbs = body["bbs"]
        succ = [successors(b) if b else [] for b in bbs]
        onstack, done, back = set(), set(), []
        st = [(0, iter(succ[0]))]
        onstack.add(0)
        while st:
            n, it = st[-1]
            for m in it:
                if bbs[m] is None:
                    continue
                if m in onstack:
                    back.append((n, m))
                elif m not in done:
                    onstack.add(m)
                    st.append((m, iter(succ[m])))
                    break
            else:
                st.pop()
                onstack.discard(n)
                done.add(n)
        pred = {}
        for n in done:
            for m in succ[n]:
                pred.setdefault(m, []).append(n)
        loops = {}
        for latch, h in back:
            body_set = loops.setdefault(h, {h})
            work = [latch]
            while work:
                x = work.pop()
                if x in body_set:
                    continue
                body_set.add(x)
                work.extend(p for p in pred.get(x, []) if p in done)
        self._loops[k] = loops
        return loops


def successors(b):
    t = b["t"]
    k = t["k"]
    if k in ("goto", "drop", "assert"):
        return [t["to"]]
    if k == "switch":
        return [x[1] for x in t["v"]] + [t["else"]]
    if k == "call":
        return [t["to"]] if t["to"] is not None else []
    return []


def unspent(v):
    """whether iterator v still has literal items to give"""
    if v.op == "it_chain":
        a = v.args[0]
        spent = a.op == "it_seq" and a.args[1].op == a.args[2].op == "int" and a.args[1].args[0] >= a.args[2].args[0]
        return unspent(v.args[1] if spent else a)
    for x in subterms(v):
        if x.op == "it_seq" and x.args[0].op == "arr" and len(x.args[0].args) <= 16:
            i, n = x.args[1], x.args[2]
            if not (i.op == "int" and n.op == "int" and i.args[0] >= n.args[0]):
                return True
    return False


class Loop:
    def __init__(self, id_, site):
        self.id = id_
        self.site = site
        self.mus = {}      # mu -> (cell, path, init)
        self.backs = []    # [(state, {mu: value at back edge})]
        self.npanics = 0
        self.kind = "mir"

    def step(self, mu):
        return [vals[mu] for _, vals in self.backs]

    def init(self, mu):
        return self.mus[mu][2]


class State:
    __slots__ = ("cells", "facts", "calls", "loops", "marks")

    def __init__(self):
        self.cells = {}
        self.facts = Facts()
        self.calls = None
        self.loops = None
        self.marks = None

    def fork(self):
        s = State.__new__(State)
        s.cells = dict(self.cells)
        s.facts = self.facts.copy()
        s.calls = self.calls
        s.loops = self.loops
        s.marks = self.marks
        return s

    def call_list(self):
        out = []
        x = self.calls
        while x is not None:
            out.append(x[0])
            x = x[1]
        out.reverse()
        return out

    def loop_list(self):
        out = []
        x = self.loops
        while x is not None:
            out.append(x[0])
            x = x[1]
        out.reverse()
        return out


class Outcome:
    __slots__ = ("kind", "value", "state")

    def __init__(self, kind, value, state):
        self.kind = kind
        self.value = value
        self.state = state


class Frame:
    __slots__ = ("body", "base", "loops", "stack", "args", "fuse")

    def __init__(self, body, base, loops, stack):
        self.body = body
        self.base = base
        self.loops = loops
        self.stack = stack
        self.fuse = False    # `next` is the first thing the loop does


class Path:
    """one exit of an analysed function"""

    def __init__(self, kind, value, state, outs):
        self.kind = kind
        self.value = value
        self.state = state
        self.facts = state.facts
        self.outs = outs


class Interp:
    def __init__(self, prog, opaque=(), thread_ext=False, max_paths=60000, opts=None):
        self.p = prog
        self.opaque = set(opaque)
        self.thread_ext = thread_ext
        self.cellno = 0
        self.loopno = 0
        self.max_paths = max_paths
        self.npaths = 0
        self.opaque_seen = set()     # names of the calls not entered
        self.recursive = set()       # bodies not entered because they are already running
        self.inlined = set()
        self.opts = opts or {}
        self.loop_objs = []
        self.panic_sites = set()   # runtime assertions met
        self.stats = {"stmts": 0, "blocks": 0, "forks": 0}
        self.fnkeys = {}
        self.depth = 0
        self.boxes = set()
        from . import builtins
        self.builtins = builtins.TABLE
        self.watch = None            # which calls to remember what was known at
        self.at_call = {}
        self.requests = set()        # places that ask for an amount of memory

    # ---- entry ------------------------------------------------------------
    def analyse(self, body, assume=None):
        """analyse a function from symbolic inputs; returns [Path]"""
        st = State()
        args = []
        outs = {}
        for i in range(1, body["argc"] + 1):
            ti = body["locals"][i][0]
            ty = self.p.types[ti]
            name = i
            if ty["k"] == "ref" and ty["m"]:
                c = self.new_cell()
                inner = self.p.types[ty["t"]]
                if inner["k"] == "param" and not self.thread_ext and self.is_ext_param(body, inner):
                    v = EXT
                else:
                    v = mk("in", name)
                    note_type(v, inner["s"])
                st.cells[c] = v
                outs[i] = c
                args.append(mk("mref", c, ()))
            else:
                t = ty
                while t["k"] == "ref":
                    t = self.p.types[t["t"]]
                v = mk("in", name)
                note_type(v, t["s"])
                args.append(v)
        if assume:
            if assume(st, args) is False:
                return []
        res = self.run_body(body, args, st, ())
        out = []
        for o in res:
            out.append(Path(o.kind, o.value, o.state,
                            {i: o.state.cells.get(c) for i, c in outs.items()}))
        return out

    def is_ext_param(self, body, ty):
        """a generic memory the function only passes on; other generic arguments have state"""
        return [ty["p"], "external_memory_tools::ExternalMemory"] in body["bounds"]

    def new_cell(self):
        self.cellno += 1
        return self.cellno

    # ---- function bodies ------------------------------------------------------
    def run_body(self, body, args, st, stack):
        self.inlined.add(body["key"])
        self.depth += 1
        if self.depth > 60:
            self.depth -= 1
            raise Unsupported("inlining depth exceeded at " + body["p"])
        try:
            fr = Frame(body, self.cellno + 1, self.p.loops(body), stack + (body["key"],))
            self.cellno += len(body["locals"]) + 1
            if body["spread"] >= 0:
                pass
            for i, a in enumerate(args):
                st.cells[fr.base + 1 + i] = a
            res = self.explore(fr, 0, st, None, None)
            nloc = len(body["locals"])
            lo, hi = fr.base, fr.base + nloc
            for o in res:
                cells = o.state.cells
                # keep cells that escape through a returned reference
                keep = T.mref_cells(o.value) if o.kind == "ret" and isinstance(o.value, Term) else ()
                for i in range(lo, hi):
                    if i not in keep:
                        cells.pop(i, None)
            return res
        finally:
            self.depth -= 1

    def explore(self, fr, bb, st, region, header):
        """run from bb; returns outcomes. region/header: inside a loop summary"""
        results = []
        work = [(bb, st, True, 0)]
        bbs = fr.body["bbs"]
        while work:
            b, s, first, at_ = work.pop()
            while True:
                if at_:
                    pass
                elif region is not None and not first:
                    if b == header:
                        results.append(Outcome("back", None, s))
                        break
                if not at_ and region is not None and b not in region:
                    results.append(Outcome("exit", b, s))
                    break
                if not at_ and b in fr.loops and not (region is not None and b == header and first):
                    rs = self.summarise_mir_loop(fr, b, s)
                    for o in rs:
                        if o.kind == "exit":
                            work.append((o.value, o.state, False, 0))
                        else:
                            results.append(o)
                    break
                first = False
                self.stats["blocks"] += 1
                blk = bbs[b]
                dead = False
                for j in range(at_, len(blk["s"])):
                    stmt = blk["s"][j]
                    self.stats["stmts"] += 1
                    if stmt[0] == "=" and stmt[2][0] == "cast" and stmt[2][1] == "IntToInt":
                        # a truth value used as a number
                        o = self.operand_ty(fr, s, stmt[2][2])
                        v = self.operand(fr, s, stmt[2][2]) if o is not None and \
                            self.p.types[o]["k"] == "bool" else None
                        if v is not None and v not in (TRUE, FALSE):
                            got = False
                            for bv, s2 in list(self.split_bool(s, v)):
                                self.write_place(fr, s2, stmt[1], I(1 if bv else 0))
                                work.append((b, s2, False, j + 1))
                                got = True
                            dead = True
                            break
                        if v is not None:
                            self.write_place(fr, s, stmt[1], I(1 if v is TRUE else 0))
                            continue
                    self.exec_stmt(fr, s, stmt)
                if dead:
                    break
                at_ = 0
                fr.fuse = region is not None and b == header and all(
                    x[0] != "=" or x[2][0] == "ref" for x in blk["s"])
                nxt = self.exec_term(fr, s, blk["t"], b)
                fr.fuse = False
                conts = []
                for n in nxt:
                    if isinstance(n, Outcome):
                        results.append(n)
                    else:
                        conts.append(n)
                if not conts:
                    break
                if len(conts) > 1:
                    self.stats["forks"] += len(conts) - 1
                for (nb, ns) in conts[1:]:
                    work.append((nb, ns, False, 0))
                b, s = conts[0]
            if len(results) + len(work) > self.max_paths:
                raise Unsupported("path budget exceeded in " + fr.body["p"])
        return results

    # ---- places ------------------------------------------------------------------
    def locate(self, fr, st, place):
        """-> ('loc', cell, path, tyid) or ('val', term, tyid)"""
        local, projs = place
        ty = fr.body["locals"][local][0]
        mode = "loc"
        cell, path = fr.base + local, ()
        val = None
        var = None
        types = self.p.types
        for e in projs:
            if e == "*":
                v = self.read_loc(st, cell, path) if mode == "loc" else val
                t = types[ty]
                if t["k"] in ("ref", "ptr"):
                    ty = t["t"]
                elif t["k"] == "adt" and t["a"]:
                    ty = t["a"][0]
                var = None
                if v.op == "mref":
                    mode, cell, path = "loc", v.args[0], v.args[1]
                else:
                    mode, val = "val", v
                continue
            k = e[0]
            if k == "d":
                var = e[1]
                continue
            if k == "f":
                t = types[ty]
                if t["k"] == "adt":
                    info = self.p.adts.get(t["p"])
                    nf = len(info["v"][var or 0]["f"]) if info else 0
                    key = ("f", t["p"], var if (info and info["kind"] == "enum") else 0, e[1], nf)
                else:
                    nf = len(t.get("a", ())) if t["k"] == "tuple" else 0
                    key = ("f", t["k"], 0, e[1], nf)
                ty = e[2]
                var = None
                if mode == "loc":
                    base = self.read_loc(st, cell, path)
                    if base.op == "mref":     # box internals
                        mode, val = "val", base
                        continue
                    path = path + (key,)
                else:
                    val = self.proj(val, key)
                    note_type(val, types[ty]["s"])
                continue
            t = types[ty]
            if k == "i":
                idx = self.read_loc(st, fr.base + e[1], ())
                if t["k"] == "array" and idx.op != "int":
                    idx = next((I(c) for c in range(17) if st.facts.eval(int_eq(idx, I(c))) is True), idx)
                key = ("e", idx)
                if t["k"] in ("array", "slice"):
                    ty = t["t"]
            elif k == "ci":
                if t["k"] in ("array", "slice"):
                    ty = t["t"]
                if e[3]:
                    base = self.read_loc(st, cell, path) if mode == "loc" else val
                    idx = add(length(base), I(-e[1]))
                else:
                    idx = I(e[1])
                key = ("e", idx)
            elif k == "ss":
                base = self.read_loc(st, cell, path) if mode == "loc" else val
                end = add(length(base), I(-e[2])) if e[3] else I(e[2])
                mode, val = "val", subseq(base, I(e[1]), end)
                continue
            else:
                raise Unsupported("projection %r" % (e,))
            var = None
            if mode == "loc":
                path = path + (key,)
            else:
                val = self.proj(val, key)
                note_type(val, types[ty]["s"])
        if mode == "loc":
            return ("loc", cell, path, ty)
        return ("val", val, ty)

    def proj(self, v, key):
        if key[0] == "f":
            return project(v, key[1], key[2], key[3], key[4])
        return elem(v, key[1])

    def read_loc(self, st, cell, path):
        v = st.cells.get(cell, UNDEF)
        for k in path:
            v = self.proj(v, k)
        return v

    def write_loc(self, st, cell, path, new):
        if not path:
            st.cells[cell] = new
            return
        if cell in self.boxes:
            st.cells[cell] = new
            return
        st.cells[cell] = self.updated(st, st.cells.get(cell, UNDEF), path, new)

    def updated(self, st, v, path, new):
        if not path:
            return new
        k = path[0]
        if k[0] == "f":
            i = k[3]
            sub_ = self.updated(st, self.proj(v, k), path[1:], new)
            if v.op == "adt":
                a = list(v.args)
                a[2 + i] = sub_
                return mk("adt", *a) if len(a) > 2 else v
            if v.op in ("tup",):
                a = list(v.args)
                a[i] = sub_
                return mk(v.op, *a)
            if v.op == "clo":
                a = list(v.args)
                a[1 + i] = sub_
                return mk("clo", *a)
            # opaque struct: expand into its fields (eta restores it if unchanged)
            info = self.p.adts.get(k[1])
            if info and info["kind"] in ("struct", "enum"):
                n = len(info["v"][k[2]]["f"])
                fs = [project(v, k[1], k[2], j, n) for j in range(n)]
                fs[i] = sub_
                return adt(k[1], k[2], tuple(fs))
            if k[1] == "tuple":
                fs = [project(v, k[1], 0, j, k[4]) for j in range(k[4])]
                fs[i] = sub_
                return tup(*fs)
            return mk("upd", v, i, sub_)
        idx = k[1]
        sub_ = self.updated(st, elem(v, idx), path[1:], new)
        if v.op == "arr" and idx.op == "int" and idx.args[0] < len(v.args):
            a = list(v.args)
            a[idx.args[0]] = sub_
            return arr(*a)
        return mk("updelem", v, idx, sub_)

    def read_place(self, fr, st, place):
        l = self.locate(fr, st, place)
        if l[0] == "loc":
            v = self.read_loc(st, l[1], l[2])
        else:
            v = l[1]
        note_type(v, self.p.types[l[-1]]["s"])
        return v

    def place_ty(self, fr, st, place):
        return self.locate(fr, st, place)[-1]

    def write_place(self, fr, st, place, v):
        local, projs = place
        if not projs:
            st.cells[fr.base + local] = v
            return
        l = self.locate(fr, st, place)
        if l[0] == "loc":
            self.write_loc(st, l[1], l[2], v)
        else:
            if l[1].op == "mref":
                # write into an uninitialised box (vec! lowering)
                st.cells[l[1].args[0]] = v
                return
            raise Unsupported("write through opaque reference in %s" % fr.body["p"])

    # ---- operands ------------------------------------------------------------------
    def const(self, c, tyid=None):
        k = c["k"]
        if k == "int":
            return I(int(c["v"]))
        if k == "str":
            return S(c["v"])
        if k == "fn":
            cc = c["c"]
            name = cc["full"]
            self.fnkeys[name] = cc
            return mk("fn", name)
        if k == "arr":
            return arr(*[self.const(x) for x in c["e"]])
        if k == "tuple":
            return tup(*[self.const(x) for x in c["e"]])
        if k == "adt":
            return mk("adt", c["p"], c["v"], *[self.const(x) for x in c["e"]])
        if k == "closure":
            return mk("clo", self.p.types[c["t"]]["key"])
        if k == "static":
            return mk("static", c["p"])
        return None

    def operand(self, fr, st, o):
        if "p" in o:
            return self.read_place(fr, st, o["p"])
        if "rc" in o:
            return FALSE
        v = self.const(o["c"])
        if v is None:
            t = self.p.types[o["t"]]
            while t["k"] == "ref":
                t = self.p.types[t["t"]]
            if t["k"] == "closure":
                return mk("clo", t["key"])
            t = self.p.types[o["t"]]
            v = mk("konst", o.get("n", t["s"]))
            note_type(v, t["s"])
        return v

    def operand_ty(self, fr, st, o):
        if "p" in o:
            return self.place_ty(fr, st, o["p"])
        return o.get("t")

    # ---- statements ------------------------------------------------------------------
    def exec_stmt(self, fr, st, s):
        k = s[0]
        if k == "=":
            v = self.rvalue(fr, st, s[2])
            self.write_place(fr, st, s[1], v)
        elif k == "sd":
            l = self.locate(fr, st, s[1])
            ty = self.p.types[l[-1]]
            v = mk("adt", ty["p"], s[2])
            self.write_place(fr, st, s[1], v)

    def rvalue(self, fr, st, r):
        k = r[0]
        if k == "use":
            return self.operand(fr, st, r[1])
        if k == "ref":
            l = self.locate(fr, st, r[2])
            if r[1] == "mut":
                if l[0] == "loc":
                    return mk("mref", l[1], l[2])
                return l[1]
            v = self.read_loc(st, l[1], l[2]) if l[0] == "loc" else l[1]
            note_type(v, self.p.types[l[-1]]["s"])
            return v
        if k == "rawptr":
            l = self.locate(fr, st, r[2])
            if l[0] == "loc":
                if "Mut" in r[1]:
                    return mk("mref", l[1], l[2])
                return self.read_loc(st, l[1], l[2])
            return l[1]
        if k == "agg":
            ops = tuple(self.operand(fr, st, o) for o in r[2])
            a = r[1]
            if a[0] == "adt":
                if a[3] >= 0:      # union
                    return ops[0]
                return adt(a[1], a[2], ops)
            if a[0] == "tuple":
                return tup(*ops)
            if a[0] == "array":
                return arr(*ops)
            if a[0] == "closure":
                return mk("clo", a[1], *ops)
        if k == "discr":
            l = self.locate(fr, st, r[1])
            v = self.read_loc(st, l[1], l[2]) if l[0] == "loc" else l[1]
            return mk("discr", v, self.p.types[r[2]].get("p", self.p.types[r[2]]["s"]))
        if k == "bin":
            return self.binop(fr, st, r[1], r[2], r[3])
        if k == "un":
            v = self.operand(fr, st, r[2])
            if r[1] == "Not":
                ty = self.p.types[self.operand_ty(fr, st, r[2])]["s"]
                if ty == "bool":
                    return neg(v)
                if v.op == "int":
                    lo, hi = INT_RANGE[ty]
                    return I(hi - v.args[0]) if lo == 0 else I(-1 - v.args[0])
                x = mk("op", "Not", v)
                note_type(x, ty)
                return x
            if r[1] == "Neg":
                return mulc(v, -1)
            if r[1] == "PtrMetadata":
                return length(v)
            raise Unsupported("unop " + r[1])
        if k == "cast":
            v = self.operand(fr, st, r[2])
            to = self.p.types[r[3]]["s"]
            if r[1] == "IntToInt":
                return self.int_cast(fr, st, v, r[2], to)
            if r[1].startswith("PointerCoercion") or r[1] in ("PtrToPtr", "Subtype", "BoxDerefTransmute", "FnPtrToPtr"):
                return v
            if r[1] == "Transmute":
                if v.op in ("mref",) or v is EXT:
                    return v
                x = mk("transmute", to, v)
                note_type(x, to)
                return x
            x = mk("cast", to, v)
            note_type(x, to)
            return x
        if k == "repeat":
            v = self.operand(fr, st, r[1])
            if r[2] is not None and r[2] <= 64:
                return arr(*([v] * r[2]))
            x = mk("repeat", v, r[2])
            return x
        raise Unsupported("rvalue %s" % k)

    def int_cast(self, fr, st, v, o, to):
        if v.op == "discr":
            x = mk("cast", to, v)
            note_type(x, to)
            return x
        rng = INT_RANGE.get(to)
        if rng is None:
            return v
        if v.op == "int":
            lo, hi = rng
            x = v.args[0] % (hi - lo + 1)
            if x > hi:
                x -= hi - lo + 1
            return I(x)
        fty = self.p.types[self.operand_ty(fr, st, o)]["s"]
        fr_ = INT_RANGE.get(fty)
        if fr_ and fr_[0] >= rng[0] and fr_[1] <= rng[1]:
            return v
        if st.facts.entails(sub(I(rng[1]), v)) and st.facts.entails(sub(v, I(rng[0]))):
            return v
        if fty[0] == "u" and to[0] == "u":
            return umod(v, rng[1] + 1, fty)
        x = mk("cast", to, v)
        note_type(x, to)
        return x

    def binop(self, fr, st, op, oa, ob):
        a = self.operand(fr, st, oa)
        b = self.operand(fr, st, ob)
        tid = self.operand_ty(fr, st, oa)
        ty = self.p.types[tid]["s"] if tid is not None else "?"
        return self.binop_terms(op, a, b, ty)

    def binop_terms(self, op, a, b, ty):
        if op in ("Eq", "Ne"):
            if a.op == "discr" or b.op == "discr":
                return self.discr_eq(a, b, op)
            r = int_eq(a, b) if (ty in INT_RANGE and ty != "bool") else eq(a, b)
            if ty == "bool":
                r = self.bool_eq(a, b)
            return neg(r) if op == "Ne" else r
        if op == "Lt":
            return lt(a, b)
        if op == "Le":
            return le(a, b)
        if op == "Gt":
            return lt(b, a)
        if op == "Ge":
            return le(b, a)
        if op == "Cmp":
            return mk("cmp", a, b)
        base = {"AddWithOverflow": "Add", "SubWithOverflow": "Sub", "MulWithOverflow": "Mul",
                "AddUnchecked": "Add", "SubUnchecked": "Sub", "MulUnchecked": "Mul",
                "ShlUnchecked": "Shl", "ShrUnchecked": "Shr"}.get(op, op)
        if base == "Add":
            v = add(a, b)
        elif base == "Sub":
            v = sub(a, b)
        elif base == "Mul":
            v = mul(a, b)
        else:
            v = self.arith(base, a, b, ty)
        note_type(v, ty)
        if op.endswith("WithOverflow"):
            rng = INT_RANGE.get(ty)
            if v.op == "int" and rng:
                o = FALSE if rng[0] <= v.args[0] <= rng[1] else TRUE
            else:
                o = mk("ovf", ty, v)
            return tup(v, o)
        return v

    def bool_eq(self, a, b):
        for x, y in ((a, b), (b, a)):
            if x is TRUE:
                return y
            if x is FALSE:
                return neg(y)
        return eq(a, b)

    def discr_eq(self, a, b, op):
        # derive(PartialEq) compares discriminants
        if a.op == "discr" and b.op == "discr":
            r = mk("eqdiscr", a, b) if a is not b else TRUE
            if a.args[0].op == "adt" and b.args[0].op == "adt":
                r = TRUE if a.args[0].args[1] == b.args[0].args[1] else FALSE
            elif a.args[0].op == "adt":
                r = mk("isvar", b.args[0], b.args[1], a.args[0].args[1])
            elif b.args[0].op == "adt":
                r = mk("isvar", a.args[0], a.args[1], b.args[0].args[1])
            return neg(r) if op == "Ne" else r
        d, c = (a, b) if a.op == "discr" else (b, a)
        if c.op != "int":
            return mk("eqdiscr", d, c)
        v = self.discr_to_variant(d.args[1], c.args[0])
        if v is None:
            r = FALSE
        elif d.args[0].op == "adt":
            r = TRUE if d.args[0].args[1] == v else FALSE
        else:
            r = mk("isvar", d.args[0], d.args[1], v)
        return neg(r) if op == "Ne" else r

    def discr_to_variant(self, path, val):
        info = self.p.adts.get(path)
        if not info:
            return None
        for i, v in enumerate(info["v"]):
            if v["d"] is not None and int(v["d"]) == val:
                return i
            if v["d"] is not None and path == ORD:
                if int(v["d"]) in (val, val & 0xFF) or (int(v["d"]) - (1 << 128) == val):
                    return i
        return None

    def arith(self, op, a, b, ty):
        if a.op == "int" and b.op == "int":
            x, y = a.args[0], b.args[0]
            rng = INT_RANGE.get(ty)
            if op in ("BitAnd", "BitOr", "BitXor"):
                return I({"BitAnd": x & y, "BitOr": x | y, "BitXor": x ^ y}[op])
            if op == "Div" and y:
                q = abs(x) // abs(y)
                return I(q if (x < 0) == (y < 0) else -q)
            if op == "Rem" and y:
                q = abs(x) % abs(y)
                return I(-q if x < 0 else q)
            if op == "Shl":
                v = x << (y % 128)
                if rng:
                    v &= rng[1] if rng[0] == 0 else v
                return I(v)
            if op == "Shr":
                return I(x >> y)
        if op in ("BitAnd", "BitOr", "BitXor") and ty == "bool":
            if op == "BitAnd":
                if a is TRUE:
                    return b
                if b is TRUE:
                    return a
                if a is FALSE or b is FALSE:
                    return FALSE
                return mk("and", *sorted((a, b), key=lambda t: t.id))
            if op == "BitOr":
                if a is FALSE:
                    return b
                if b is FALSE:
                    return a
                if a is TRUE or b is TRUE:
                    return TRUE
                return mk("or", *sorted((a, b), key=lambda t: t.id))
            if a.op == "int":
                return neg(b) if a is TRUE else b
            if b.op == "int":
                return neg(a) if b is TRUE else a
        if op in ("BitAnd", "BitOr", "BitXor") and b.id < a.id:
            a, b = b, a
        if op in ("BitAnd", "BitOr", "BitXor") and a.op == "int" and b.op != "int":
            a, b = b, a
        if b.op == "int" and ty in INT_RANGE and INT_RANGE[ty][0] == 0 and ty != "bool":
            k = b.args[0]
            if op == "BitAnd":
                sb = static_bounds(a)
                if sb is not None and sb[0] >= 0 and sb[1] < 2**128:
                    return umask(a, k & ((1 << max(sb[1].bit_length(), 1)) - 1), ty)
                return umask(a, k, ty)
            if op == "Shr":
                return udiv(a, 1 << k, ty)
            if op == "Div" and k > 0:
                return udiv(a, k, ty)
            if op == "Rem" and k > 0:
                return umod(a, k, ty)
            if op == "Shl":
                v = mulc(a, 1 << k)
                sb = static_bounds(v)
                if sb is not None and sb[0] >= 0 and sb[1] <= INT_RANGE[ty][1]:
                    return v
                sb = static_bounds(a)
                if sb is not None and sb[0] >= 0:
                    return umod(v, INT_RANGE[ty][1] + 1)
        if op == "Shl" and a.op == "int" and a.args[0] > 0 and a.args[0] & (a.args[0] - 1) == 0 and ty in INT_RANGE:
            x = add(b, I(a.args[0].bit_length() - 1))
            sb = static_bounds(x)
            if sb is not None and sb[0] >= 0 and (1 << min(sb[1], 256)) <= INT_RANGE[ty][1]:
                return shl1(x)
        if op in ("BitOr", "BitXor") and ty in INT_RANGE:
            for x, y in ((a, b), (b, a)):
                sb = static_bounds(x)
                sy = static_bounds(y)
                if sb is not None and sy is not None and sb[0] >= 0 and sy[0] >= 0:
                    k = 1 << sb[1].bit_length()
                    c0, d = to_lin(y)
                    if c0 % k == 0 and all(v % k == 0 for v in d.values()):
                        return add(x, y)        # no common bits
        v = mk("op", op, a, b)
        note_type(v, ty)
        return v

    # ---- terminators ------------------------------------------------------------------
    def site(self, fr, t):
        return "%s (%s)" % (t.get("sp", "?"), fr.body["np"])

    def exec_term(self, fr, st, t, bb):
        k = t["k"]
        if k == "goto":
            return [(t["to"], st)]
        if k == "drop":
            return [(t["to"], st)]
        if k == "ret":
            return [Outcome("ret", st.cells.get(fr.base, UNIT), st)]
        if k == "unreachable" or k == "unwind":
            return []
        if k == "switch":
            return self.switch(fr, st, t)
        if k == "assert":
            return self.do_assert(fr, st, t)
        if k == "call":
            return self.do_call(fr, st, t)
        raise Unsupported("terminator " + k)

    def switch(self, fr, st, t):
        v = self.operand(fr, st, t["o"])
        out = []
        if v.op == "discr":
            return self.switch_variant(st, v.args[0], v.args[1], t)
        if v.op == "cmp":
            v = mk("discr", v, ORD)
            return self.switch_variant(st, v.args[0], ORD, t)
        ty = self.p.types[t["t"]]["s"]
        if v.op == "int":
            for val, to in t["v"]:
                if int(val) == v.args[0]:
                    return [(to, st)]
            return [(t["else"], st)]
        if ty == "bool":
            # values: "0" -> false
            m = {int(val): to for val, to in t["v"]}
            ft = m.get(0, t["else"])
            tt = m.get(1, t["else"])
            r = st.facts.eval(v)
            if r is True:
                return [(tt, st)]
            if r is False:
                return [(ft, st)]
            s2 = st.fork()
            if self.assume(st, v, True):
                out.append((tt, st))
            if self.assume(s2, v, False):
                out.append((ft, s2))
            return out
        cur = st
        for val, to in t["v"]:
            c = int_eq(v, I(int(val)))
            r = cur.facts.eval(c)
            if r is True:
                out.append((to, cur))
                return out
            if r is False:
                continue
            s2 = cur.fork()
            if self.assume(s2, c, True):
                out.append((to, s2))
            if not self.assume(cur, c, False):
                return out
        out.append((t["else"], cur))
        return out

    def assume(self, st, c, val):
        return st.facts.assume(c, val)

    def switch_variant(self, st, v, path, t):
        if v.op == "cmp":
            return self.switch_cmp(st, v, t)
        info = self.p.adts.get(path)
        known = st.facts.variant(v, len(info["v"]) if info else None)
        out = []
        if info is None:
            raise Unsupported("discriminant of unknown adt " + str(path))
        tgt = {}
        for val, to in t["v"]:
            vi = self.discr_to_variant(path, int(val))
            if vi is not None:
                tgt[vi] = to
        if known is not None:
            return [(tgt.get(known, t["else"]), st)]
        nv = st.facts.notvar.get(v, frozenset())
        allv = [i for i in range(len(info["v"])) if i not in nv and info["v"][i]["d"] is not None or i not in nv]
        groups = {}
        for i in allv:
            groups.setdefault(tgt.get(i, t["else"]), []).append(i)
        items = list(groups.items())
        for n, (to, vs) in enumerate(items):
            s2 = st.fork() if n < len(items) - 1 else st
            ok = True
            if len(vs) == 1:
                ok = s2.facts.assume_variant(v, path, vs[0], True)
            else:
                for i in allv:
                    if i not in vs:
                        ok = ok and s2.facts.assume_variant(v, path, i, False)
            if ok:
                out.append((to, s2))
        return out

    def split_variant(self, st, v, path):
        """[(variant, state)] feasible variants of v"""
        info = self.p.adts[path]
        known = st.facts.variant(v, len(info["v"]))
        if known is not None:
            return [(known, st)]
        nv = st.facts.notvar.get(v, frozenset())
        out = []
        vs = [i for i in range(len(info["v"])) if i not in nv]
        for n, i in enumerate(vs):
            s2 = st.fork() if n < len(vs) - 1 else st
            if s2.facts.assume_variant(v, path, i, True):
                out.append((i, s2))
        return out

    def split_bool(self, st, c):
        r = st.facts.eval(c)
        if r is not None:
            return [(r, st)]
        s2 = st.fork()
        out = []
        if st.facts.assume(c, True):
            out.append((True, st))
        if s2.facts.assume(c, False):
            out.append((False, s2))
        return out

    def switch_cmp(self, st, v, t):
        a, b = v.args
        tgt = {}
        for val, to in t["v"]:
            x = int(val)
            if x >= 128:
                x -= 256
            tgt[x] = to
        out = []
        for x, c in ((-1, lt(a, b)), (0, int_eq(a, b)), (1, lt(b, a))):
            to = tgt.get(x, t["else"])
            r = st.facts.eval(c)
            if r is False:
                continue
            s2 = st.fork()
            if s2.facts.assume(c, True):
                out.append((to, s2))
        return out

    def do_assert(self, fr, st, t):
        c = self.operand(fr, st, t["c"])
        exp = t["e"]
        out = []
        self.panic_sites.add((fr.body["key"], t.get("sp"), t["m"][0]))
        for val, s in self.split_bool(st, c):
            if val == exp:
                out += [(t["to"], s2) for s2 in self.each_index(fr, s, t)]
            else:
                m = t["m"]
                desc = m[0]
                if m[0] == "overflow":
                    desc = "overflow in " + m[1]
                out.append(Outcome("panic", (desc, self.site(fr, t), c), s))
        return out

    def each_index(self, fr, st, t):
        """a small literal array indexed by a value in range: one state per position"""
        m = t["m"]
        if m[0] != "bounds":
            return [st]
        n, i = self.operand(fr, st, m[1]), self.operand(fr, st, m[2])
        if n.op != "int" or n.args[0] > 16 or i.op == "int":
            return [st]
        out = []
        for k in range(n.args[0]):
            s = st.fork() if k < n.args[0] - 1 else st
            if s.facts.assume(int_eq(i, I(k)), True):
                out.append(s)
        return out

    # ---- calls --------------------------------------------------------------------------
    def do_call(self, fr, st, t):
        f = t["f"]
        args = [self.operand(fr, st, a) for a in t["a"]]
        if "c" in f and f["c"]["k"] == "fn":
            callee = f["c"]["c"]
        else:
            fv = self.operand(fr, st, f)
            res = self.call_value(fr, st, fv, args, t["dt"], self.site(fr, t))
            return self.finish_call(fr, t, res)
        res = self.call(fr, st, callee, args, t["dt"], self.site(fr, t))
        return self.finish_call(fr, t, res)

    def finish_call(self, fr, t, res):
        out = []
        for o in res:
            if o.kind == "ret":
                if t["to"] is None:
                    # diverging callee that the model let return: treat as panic
                    out.append(Outcome("panic", ("diverging call", self.site(fr, t), UNIT), o.state))
                    continue
                self.write_place(fr, o.state, t["d"], o.value)
                out.append((t["to"], o.state))
            else:
                out.append(o)
        return out

    def call_value(self, fr, st, fv, args, dt, site):
        """call a closure / fn item value with an argument list"""
        if fv.op == "mref":
            cell, path = fv.args
            inner = self.read_loc(st, cell, path)
            if inner.op == "clo":
                return self.call_closure(fr, st, inner, fv, args, dt, site)
            fv = inner
        if fv.op == "clo":
            return self.call_closure(fr, st, fv, None, args, dt, site)
        if fv.op == "fn":
            return self.call(fr, st, self.fnkeys[fv.args[0]], args, dt, site)
        return self.opaque_call(st, "callval", [fv] + args, dt, site)

    def call_closure(self, fr, st, clo, ref, args, dt, site):
        body = self.p.bodies.get(clo.args[0])
        if body is None:
            raise Unsupported("closure body missing " + clo.args[0])
        ty = self.p.types[body["locals"][1][0]]
        tmp = None
        if ty["k"] == "ref" and ty["m"]:
            if ref is None:
                tmp = self.new_cell()
                st.cells[tmp] = clo
                ref = mk("mref", tmp, ())
            a0 = ref
        else:
            a0 = clo
        if body["argc"] - 1 != len(args):
            if len(args) == 1 and args[0].op == "tup":
                args = list(args[0].args)
            elif body["argc"] == 2 and len(args) != 1:
                args = [tup(*args)]
        return self.run_body(body, [a0] + list(args), st, fr.stack if fr else ())

    def call(self, fr, st, callee, args, dt, site):
        # constructors
        if "ctor" in callee:
            return [Outcome("ret", adt(callee["ctor"][0], callee["ctor"][1], tuple(args)), st)]
        np_ = callee.get("_np")
        if np_ is None:
            np_ = callee["_np"] = norm_path(callee["p"])
            callee["_rp"] = strip_generics(callee.get("rp", callee["p"]))
        # closure calls
        if np_ in ("ops::Fn::call", "ops::FnMut::call_mut", "ops::FnOnce::call_once"):
            tupargs = args[1]
            al = list(tupargs.args) if tupargs.op == "tup" else [tupargs]
            return self.call_value(fr, st, args[0], al, dt, site)
        rp = callee["_rp"]
        if rp in self.opaque or np_ in self.opaque:
            return self.opaque_call(st, self.call_name(callee), args, dt, site)
        b = self.builtins.get(np_)
        if b is not None:
            r = b(self, fr, st, callee, args, dt, site)
            if r is not None:
                return r
        key = callee.get("key")
        body = self.p.bodies.get(key) if key else None
        if body is not None and callee.get("kind") == "item":
            if key in fr.stack:
                self.recursive.add(key)
                return self.opaque_call(st, self.call_name(callee), args, dt, site)
            if callee.get("rlocal") or body["closure"] or callee.get("krate") in ("core", "alloc", "std"):
                return self.run_body(body, args, st, fr.stack)
        return self.opaque_call(st, self.call_name(callee), args, dt, site)

    def call_name(self, callee):
        n = callee.get("_name")
        if n is None:
            p = callee["_rp"] if callee.get("rlocal") and not callee.get("trait") else strip_generics(callee["p"])
            if callee.get("rlocal") and callee.get("trait"):
                p = strip_generics(callee["p"])
            targs = [self.p.types[a]["s"] for a in callee["a"] if not self.p.types[a]["hp"]
                     and self.p.types[a]["k"] not in ("closure", "fndef")]
            n = p + ("<%s>" % ", ".join(targs) if targs else "")
            callee["_name"] = n
        return n

    def ret(self, st, v):
        return [Outcome("ret", v, st)]

    def opaque_call(self, st, name, args, dt, site, pure=False):
        """value and &mut outputs of a callee that is not entered"""
        ins = []
        muts = []
        for i, a in enumerate(args):
            if a.op == "mref":
                v = self.read_loc(st, a.args[0], a.args[1])
                ins.append(v)
                if v is not EXT:
                    muts.append((i, a))
            else:
                ins.append(self.snapshot(st, a, muts, i))
        call = mk("call", name, *ins)
        self.opaque_seen.add(name)
        ty = self.p.types[dt] if dt is not None else None
        if ty is not None:
            note_type(call, ty["s"])
        st.calls = ((call, site), st.calls)
        if self.watch is not None and self.watch(name):
            self.at_call[id(st.calls)] = (st.calls, st.facts.copy())
        if not pure:
            for i, a in muts:
                old = self.read_loc(st, a.args[0], a.args[1])
                new = mk("out", i, call)
                if old in term_type:
                    note_type(new, term_type[old])
                elif is_intlike(old):
                    note_type(new, "usize")
                self.write_loc(st, a.args[0], a.args[1], new)
        if ty is not None and ty["k"] == "never":
            return [Outcome("panic", ("call to " + short_call(name), site, UNIT), st)]
        if ty is not None and ty["k"] == "tuple" and not ty["a"]:
            call = UNIT
        return [Outcome("ret", call, st)]

    def snapshot(self, st, a, muts, i):
        """replace mutable references inside an aggregate by their contents"""
        if a.op in ("int", "str", "in", "fn"):
            return a
        m = {}
        for x in subterms(a):
            if x.op == "mref":
                v = self.read_loc(st, x.args[0], x.args[1])
                m[x] = v
                if v is not EXT:
                    muts.append(("%s.%s" % (i, len(muts)), x))
        return subst(a, m) if m else a

    # ---- loops --------------------------------------------------------------------------
    def summarise_mir_loop(self, fr, h, st):
        region = fr.loops[h]

        def step(s):
            return self.explore(fr, h, s, region, h)
        t = fr.body["bbs"][h]["t"]
        site = "%s (%s)" % (t.get("sp", "?"), fr.body["np"])
        # loops over literal sequences are unrolled: each exit test is decided
        lits = self.literal_loop(fr, st, region)
        if lits:
            # (those that go on with the sequence in every round)
            first = [o for o in step(st.fork()) if o.kind == "back"]
            if not any(all(o.state.cells.get(c) is not st.cells.get(c) for o in first) for c in lits):
                lits = None
        if lits:
            out = []
            work = [st]
            n = 0
            while work:
                s = work.pop()
                n += 1
                if n > 400:
                    break
                if s is not st and not any(unspent(s.cells[c]) for c in lits if c in s.cells):
                    os_ = step(s.fork())
                    if any(o.kind == "back" for o in os_):
                        out += self.generic_loop(s, step, site, fr)
                    else:
                        out += os_
                    continue
                for o in step(s):
                    if o.kind == "back":
                        work.append(o.state)
                    else:
                        out.append(o)
            else:
                return out
        return self.generic_loop(st, step, site, fr)

    def literal_loop(self, fr, st, region):
        found = []
        for b in region:
            t = fr.body["bbs"][b]["t"]
            if t["k"] == "call" and "c" in t["f"] and t["f"]["c"]["k"] == "fn":
                c = t["f"]["c"]["c"]
                if c.get("name") == "next" and t["a"] and "p" in t["a"][0]:
                    # find iterators over literal arrays live in the frame
                    for i in range(len(fr.body["locals"])):
                        v = st.cells.get(fr.base + i)
                        if v is not None and v.op.startswith("it_"):
                            for x in subterms(v):
                                if x.op == "it_seq" and x.args[0].op in ("arr",) and 0 < len(x.args[0].args) <= 16 \
                                        and fr.base + i not in found:
                                    found.append(fr.base + i)
        return found

    def generic_loop(self, st, step, site, fr=None, kind="mir"):
        self.loopno += 1
        loop = Loop(self.loopno, site)
        loop.kind = kind
        havoc = {}       # (cell, argpath) -> mu
        entry = dict(st.cells)
        invs = []
        nmu = [0]
        twinning = True
        twins = {}       # (cell, argpath) -> mu it always equals
        shaped = {}      # (cell, argpath) -> (ghost cell, base, fixed end, which end moves)
        counted = {}     # (cell, argpath) -> ghost cell counting its length
        unshaped = set()
        flags = {}       # (cell, argpath) -> the value with which the loop goes on
        noflags = set()

        def unghost(keys, other):
            for k in keys:
                g = other.pop(k)
                g = g[0] if isinstance(g, tuple) else g
                havoc.pop((g, ()), None)
                for k2 in [k2 for k2, m in twins.items() if k2[0] == g or m not in havoc.values()]:
                    del twins[k2]
                    if k2[0] != g:
                        fresh(*k2)
                st.cells.pop(g, None)
                entry.pop(g, None)
                unshaped.add(k)
                havoc.pop(k, None)
                fresh(*k)

        def fresh(cell, path):
            nmu[0] += 1
            havoc[cell, path] = mu = mk("mu", loop.id, nmu[0])
            self.type_mu(mu, at(entry[cell], path), cell, path, fr)
            return mu

        def shape_term(k):
            g, base, end, front = shaped[k]
            x = havoc.get((g, ())) or twins[g, ()]
            return subseq(base, x, end) if front else subseq(base, end, x)

        def part(twins):
            for cell, path in list(twins):
                del twins[cell, path]
                if any(k[0] == cell and path[:len(k[1])] == k[1] for k in havoc):
                    continue
                nmu[0] += 1
                havoc[cell, path] = mu = mk("mu", loop.id, nmu[0])
                self.type_mu(mu, at(entry[cell], path), cell, path, fr)
        for rnd in range(30):
            s = st.fork()
            for (cell, path), mu in list(havoc.items()) + list(twins.items()):
                s.cells[cell] = replace_at(s.cells[cell], path, mu)
            for cell, path in shaped:
                s.cells[cell] = replace_at(s.cells[cell], path, shape_term((cell, path)))
            for l in invs:
                s.facts.ineqs.append(l)
            head = dict(s.cells)
            res = step(s)
            if flags:
                more = self.leave(res, flags, step)
                if more is None:
                    k = list(flags)[-1]
                    del flags[k]
                    noflags.add(k)
                    fresh(*k)
                    invs = []
                    continue
                res = more
            new = {}
            bad = set()
            for o in res:
                if o.kind != "back":
                    continue
                for (cell, path), (g, base, end, front) in shaped.items():
                    v = at(o.state.cells[cell], path)
                    x = part_of(v, base, end, front)
                    if x is None:
                        bad.add((cell, path))
                    else:
                        o.state.cells[g] = x
                for (cell, path), g in counted.items():
                    v = at(o.state.cells[cell], path)
                    n = pushes(v, havoc[cell, path])
                    if n is None:
                        bad.add((cell, path))
                    else:
                        o.state.cells[g] = add(havoc.get((g, ())) or twins[g, ()], I(n))
            if bad:
                unghost([k for k in shaped if k in bad], shaped)
                unghost([k for k in counted if k in bad], counted)
                invs = []
                continue
            for o in res:
                if o.kind != "back":
                    continue
                for cell, hv in head.items():
                    bv = o.state.cells.get(cell)
                    if bv is None or bv is hv:
                        continue
                    for path in diff(hv, bv):
                        new.setdefault((cell, path), None)
            # drop leaves already havocked exactly; detect coarsening
            changed = False
            for (cell, path) in new:
                if (cell, path) in havoc or (cell, path) in twins or (cell, path) in shaped:
                    continue
                for other in (shaped, counted):
                    for k2 in [k for k in other if k[0] == cell and len(k[1]) > len(path)
                               and k[1][:len(path)] == path]:
                        unghost([k2], other)
                        havoc.pop(k2, None)
                # remove finer leaves below a coarser one
                for k2 in [k for k in havoc if k[0] == cell and len(k[1]) > len(path)
                           and k[1][:len(path)] == path]:
                    del havoc[k2]
                if any(k[0] == cell and path[:len(k[1])] == k[1] for k in havoc):
                    continue
                nmu[0] += 1
                mu = mk("mu", loop.id, nmu[0])
                init = at(entry[cell], path)
                havoc[(cell, path)] = mu
                self.type_mu(mu, init, cell, path, fr)
                changed = True
            if changed:
                invs = []
                part(twins)
                continue
            # refine the types of mus from back-edge values
            backs = []
            for o in res:
                if o.kind == "back":
                    vals = {mu: at(o.state.cells[cell], path) for (cell, path), mu in havoc.items()}
                    backs.append((o.state, vals))
            inits = {mu: at(entry[cell], path) for (cell, path), mu in havoc.items()}
            # what only says whether to go on has one value at the head
            found = [k for k, mu in havoc.items() if k not in noflags and self.flag(k, mu, inits[mu], backs, fr)]
            if found:
                k = min(found, key=lambda k: inits[havoc[k]].op != "int")
                del havoc[k]
                flags[k] = at(entry[k[0]], k[1])
                invs = []
                continue
            # counters that start equal and always advance alike are one counter
            steps = {}
            for key, mu in havoc.items():
                ds = [sub(v[mu], mu) if is_intlike(v[mu]) or v[mu].op == "lin" else None for _, v in backs]
                if ds and inits[mu].op == "int" and all(d is not None and d.op == "int" for d in ds):
                    steps.setdefault((inits[mu], term_type.get(mu), tuple(ds)), []).append(key)
            # a slice that loses its ends is a moving position; a vector whose length is looked at
            # is a counter
            ghosts = False
            moves = {}
            for mu in havoc.values():
                ds = [sub(v[mu], mu) if is_intlike(v[mu]) or v[mu].op == "lin" else None for _, v in backs]
                if ds and all(d is not None and d.op == "int" for d in ds):
                    moves[mu] = [d.args[0] for d in ds]
            for key, mu in list(havoc.items()):
                if key in unshaped or key in counted or not backs or is_intlike(mu):
                    continue
                front = all(loses(v[mu], mu, True) for _, v in backs)
                if front or all(loses(v[mu], mu, False) for _, v in backs):
                    i = inits[mu]
                    if i.op == "sub":
                        base, lo, hi = i.args
                    else:
                        base, lo, hi = i, I(0), length(i)
                    g = self.new_cell()
                    st.cells[g] = entry[g] = lo if front else hi
                    del havoc[key]
                    shaped[key] = (g, base, hi if front else lo, front)
                    note_type(fresh(g, ()), "usize")
                    ghosts = True
                elif all(pushes(v[mu], mu) is not None for _, v in backs) and length(inits[mu]).op == "int" \
                        and not any(is_intlike(m) and all(pushes(v[mu], mu) == k for (_, v), k in zip(backs, ds))
                                    for m, ds in moves.items()) \
                        and self.looks_at(mk("len", mu), res):
                    g = self.new_cell()
                    st.cells[g] = entry[g] = length(inits[mu])
                    counted[key] = g
                    gm = fresh(g, ())
                    note_type(gm, "usize")
                    KNOWN_LEN[fresh(*key)] = gm
                    ghosts = True
            if ghosts:
                invs = []
                continue
            for k in [k for k in steps if k[1] is None]:
                typed = next((k2 for k2 in steps if k2[1] is not None and k2[0] is k[0] and k2[2] == k[2]), None)
                if typed:
                    steps[typed] += steps.pop(k)
            pairs = [ks for ks in steps.values() if len(ks) > 1]
            if pairs and twinning:
                for ks in pairs:
                    gone = {havoc[k] for k in ks[1:]}
                    for k in ks[1:]:
                        del havoc[k]
                        twins[k] = havoc[ks[0]]
                    for k, mu in twins.items():
                        if mu in gone:
                            twins[k] = havoc[ks[0]]
                invs = []
                continue
            where = {mu: key for key, mu in havoc.items()}
            if any(at(o.state.cells[cell], path) is not at(o.state.cells[where[mu][0]], where[mu][1])
                   for o in res if o.kind == "back" for (cell, path), mu in twins.items()):
                twinning = False
                part(twins)
                invs = []
                continue
            for (cell, path), mu in havoc.items():
                if mu not in term_range:
                    for cand in [inits[mu]] + [v[mu] for _, v in backs]:
                        if cand in term_type:
                            note_type(mu, term_type[cand])
                            break
                        if cand.op == "lin":
                            ty = next((term_type[k] for k, _ in cand.args[1] if k in term_type), None)
                            if ty:
                                note_type(mu, ty)
                                break
            ninv = self.find_invariants(st, inits, backs, invs)
            if ninv:
                invs = invs + ninv
                continue
            break
        else:
            raise Unsupported("loop did not stabilise at " + site)
        loop.mus = {mu: (cell, path, inits[mu]) for (cell, path), mu in havoc.items()}
        loop.backs = backs
        loop.invs = invs
        loop.depth0 = len(st.loop_list())
        loop.exits = []
        self.loop_objs.append(loop)
        out = []
        tabs = loop.tabs = self.tabulate(loop, st)
        every = self.everywhere(loop, st)
        for o in res:
            if o.kind == "back":
                continue
            o.state.loops = (loop, o.state.loops)
            if o.kind == "exit" and tabs:
                self.apply_tabs(loop, o.state, tabs)
            o.state.facts.every += every
            if o.kind == "panic":
                loop.npanics += 1
            loop.exits.append(o)
            out.append(o)
        finds = self.searches(loop)
        if finds:
            out = [x for o in out for x in self.apply_searches(o, finds)]
        return out

    def flag(self, key, mu, init, backs, fr):
        cell, path = key
        if init.op == "int":
            if term_type.get(mu) != "bool" and not (
                    not path and fr is not None and fr.base <= cell < fr.base + len(fr.body["locals"])
                    and self.p.types[fr.body["locals"][cell - fr.base][0]]["s"] == "bool"):
                return False
            return any(v[mu] is not mu for _, v in backs)
        if init.op != "adt" or len(init.args) != 2:
            return False
        vs = [v[mu] for _, v in backs]
        return all(v is mu or v.op == "adt" and v.args[0] == init.args[0] for v in vs) and \
            any(v.op == "adt" and v.args[1] != init.args[1] for v in vs)

    def leave(self, res, flags, step):
        """ways back on which a flag has changed go on to leave the loop; None when one does not"""
        out = []
        for o in res:
            if o.kind != "back":
                out.append(o)
                continue
            todo = [o.state]
            for (cell, path), init in flags.items():
                nxt = []
                for s in todo:
                    v = at(s.cells[cell], path)
                    if v is init or v.op in ("int", "adt"):
                        nxt.append(s)
                        continue
                    if init.op != "int":
                        return None
                    for val, s2 in self.split_bool(s, v):
                        s2.cells[cell] = replace_at(s2.cells[cell], path, TRUE if val else FALSE)
                        nxt.append(s2)
                todo = nxt
            for s in todo:
                if all(at(s.cells[c], p) is init for (c, p), init in flags.items()):
                    out.append(Outcome("back", None, s))
                    continue
                os_ = step(s)
                if any(x.kind == "back" for x in os_):
                    return None
                out += os_
        return out

    def looks_at(self, x, res):
        for o in res:
            if o.kind == "panic":
                continue
            f = o.state.facts
            if any(y is x for t in f.ineqs for y in subterms(t)):
                return True
            if any(y is x for c in f.atoms for y in subterms(c)):
                return True
        return False

    # a loop that goes on only past elements of one kind says that all it has passed are of that kind
    def everywhere(self, loop, st):
        if len(loop.backs) != 1:
            return ()
        bst, vals = loop.backs[0]
        ix = [mu for mu, (c, p, i) in loop.mus.items() if i.op == "int" and i.args[0] == 0 and vals[mu] is add(mu, I(1))]
        if not ix:
            return ()
        ix = ix[0]
        mine = []
        x = bst.facts.log
        while x is not None and x is not st.facts.log:
            mine.append(x[0])
            x = x[1]
        found = {}
        for c, val in reversed(mine):
            if c.op == "ge0" or any(y.op == "mu" and y.args[0] == loop.id and y is not ix or y is BOUND for y in subterms(c)):
                continue
            over = {y.args[0] for y in subterms(c) if y.op == "elem" and y.args[1] is ix}
            for xs in over:
                if not any(y is ix for y in subterms(xs)):
                    found.setdefault(xs, []).append((subst(c, {ix: BOUND}), val))
        return tuple((xs, ix, tuple(cs)) for xs, cs in found.items())

    # loops that look an element up say whether the sequence contains it
    def searches(self, loop):
        if not loop.backs:
            return []
        own = set(loop.mus)
        res = []
        for ix, (_, _, init) in loop.mus.items():
            if init.op == "int" and init.args[0] == 0:
                pos, move = ix, 1
            elif is_intlike(init):
                pos, move = add(ix, I(-1)), -1
            else:
                continue
            if not all(v[ix] is add(ix, I(move)) for _, v in loop.backs):
                continue
            st0 = loop.backs[0][0]
            for c, val in st0.facts.atoms.items():
                if val or c.op not in ("eq", "eq0"):
                    continue
                if c.op == "eq":
                    pairs = [c.args, c.args[::-1]]
                else:
                    k, d = to_lin(c.args[0])
                    pairs = []
                    for e, w in d.items():
                        if abs(w) == 1 and e.op == "elem":
                            rest = from_lin(k, {x: y for x, y in d.items() if x is not e})
                            pairs.append((e, mulc(rest, -w)))
                for e, t in pairs:
                    if e.op != "elem" or e.args[1] is not pos:
                        continue
                    xs = e.args[0]
                    if move < 0 and init is not length(xs):
                        continue
                    if any(y in own for z in (xs, t) for y in subterms(z)):
                        continue
                    if all(st.facts.eval(c) is False for st, _ in loop.backs[1:]):
                        res.append((sub(ix, length(xs)) if move > 0 else mulc(ix, -1), xs, t, c))
        return res

    def apply_searches(self, o, finds):
        outs = [o]
        if o.kind == "panic":
            return outs
        for done, xs, t, c in finds:
            nxt = []
            for x in outs:
                f = x.state.facts
                if f.eval(c) is True:
                    val = True
                elif f.entails(done):
                    val = False
                else:
                    nxt.append(x)
                    continue
                for s in assume_contains(x.state, xs, t, val):
                    nxt.append(x if s is x.state else Outcome(x.kind, x.value, s))
            outs = nxt
        return outs

    def type_mu(self, mu, init, cell, path, fr):
        if init in term_type:
            note_type(mu, term_type[init])
            return
        if not path and fr is not None and fr.base <= cell < fr.base + len(fr.body["locals"]):
            note_type(mu, self.p.types[fr.body["locals"][cell - fr.base][0]]["s"])
            return
        if init.op == "lin":
            ty = next((term_type[k] for k, _ in init.args[1] if k in term_type), None)
            if ty:
                note_type(mu, ty)

    def find_invariants(self, st, inits, backs, have):
        cands = []
        ints = {}
        for mu, i in inits.items():
            if is_intlike(i) or is_intlike(mu) or (i.op in ("lin",)):
                ds = []
                for _, vals in backs:
                    d = sub(vals[mu], mu) if (is_intlike(vals[mu]) or vals[mu].op == "lin") else None
                    ds.append(d)
                if ds and all(d is not None and d.op == "int" for d in ds):
                    ints[mu] = [d.args[0] for d in ds]
                    if all(d.args[0] >= 0 for d in ds):
                        cands.append(sub(mu, i))
                    if all(d.args[0] <= 0 for d in ds):
                        cands.append(sub(i, mu))
                elif backs:
                    cands.append(sub(mu, i))
        # positions that start inside the data stay inside it
        totals = {k for l in st.facts.ineqs if l.op == "lin" for k, _ in l.args[1]
                  if k.op == "call" and k.args[0].endswith("::total_len")}
        contract = set()
        for mu, i in inits.items():
            if totals and backs and (is_intlike(i) or is_intlike(mu)) and mu not in ints:
                for t in totals:
                    c = sub(t, mu)
                    contract.add(c)
                    cands.append(c)
        # lengths of accumulated vectors move with counters
        lens = {}
        for mu, i in inits.items():
            ok = True
            ds = []
            for _, vals in backs:
                v = vals[mu]
                n = 0
                while v.op == "push":
                    n += 1
                    v = v.args[0]
                if v is not mu:
                    ok = False
                    break
                ds.append(n)
            if ok and ds and i.op in ("arr", "in", "call", "fld", "push", "mu") and any(ds):
                lens[mu] = (length(mu), length(i), ds)
        allints = [(mu, mu, inits[mu], ds) for mu, ds in ints.items()] + \
                  [(mu, l, li, ds) for mu, (l, li, ds) in lens.items()]
        for a in range(len(allints)):
            for b in range(a + 1, len(allints)):
                _, ta, ia, da = allints[a]
                _, tb, ib, db = allints[b]
                ka, kb = proportion(da, db)
                if ka:
                    l = sub(mulc(sub(ta, ia), kb), mulc(sub(tb, ib), ka))
                    cands.append(l)
                    cands.append(mulc(l, -1))
        for st2, _ in backs:
            for l in st2.facts.ineqs:
                if l.op != "lin":
                    continue
                for k, v in l.args[1]:
                    if k in ints and v < 0 and max(ints[k]) > 0:
                        m = max(ints[k])
                        cands.append(add(l, I(-v * m)))
                    if k in ints and v > 0 and min(ints[k]) < 0:
                        m = -min(ints[k])
                        cands.append(add(l, I(v * m)))
        # a step of one never passes what it is compared with
        steps = {t: ds for _, t, _, ds in allints}
        for st2, _ in backs:
            for q in st2.facts.neqs:
                for k, v in to_lin(q)[1].items():
                    if k in steps and abs(v) == 1 and set(steps[k]) in ({1}, {-1}):
                        l = q if v == -steps[k][0] else mulc(q, -1)
                        cands += [l, add(l, I(-1)), add(l, I(1))]
        out = []
        seen = set(have)
        head = st.facts.copy()
        head.ineqs.extend(have)
        for c in cands:
            if c in seen or c.op == "int":
                continue
            seen.add(c)
            if len(have) + len(out) > 40:
                break
            ci = subst(c, inits)
            if not st.facts.entails(ci) or head.entails(c):
                continue
            ok = True
            for st2, vals in backs:
                m = {}
                for mu in inits:
                    m[mu] = vals[mu]
                f2 = st2.facts.copy()
                f2.ineqs.append(c)
                if f2.neqs:
                    f2.tighten(c)
                if c in contract:
                    f2.refresh()
                if not f2.entails(subst(c, m)):
                    ok = False
                    break
            if ok:
                out.append(c)
                head.ineqs.append(c)
        return out

    # pure accumulation loops become tabulations
    def tabulate(self, loop, st):
        from .builtins import concat
        if len(loop.backs) != 1:
            return {}
        bst, vals = loop.backs[0]
        idx = [mu for mu, (c, p, i) in loop.mus.items()
               if i.op == "int" and i.args[0] == 0 and vals[mu] is add(mu, I(1))]
        if not idx:
            return {}
        ix = idx[0]
        same = {m for m in idx}
        tabs = {}
        bound = None
        for l in loop.invs:
            c, d = to_lin(l)
            if d.get(ix) == -1 and not any(k.op == "mu" and k.args[0] == loop.id for k in d if k is not ix):
                cand = from_lin(c, {k: v for k, v in d.items() if k is not ix})
                if not any(x.op == "len" and x.args[0].op == "mu" and x.args[0].args[0] == loop.id for x in subterms(cand)):
                    bound = cand
                    break
        if bound is None:
            return {}
        for mu, (c, p, i) in loop.mus.items():
            v = vals[mu]
            if v.op == "cat" and v.args[0] is mu and len(v.args) == 2 and v.args[1].op == "str" and i is not None:
                from .builtins import cat, strrep
                tabs[mu] = (cat(i, strrep(v.args[1], bound)), ix, bound)
            if v.op == "push" and v.args[0] is mu:
                if i is None or any(y.op == "mu" and y.args[0] == loop.id for y in subterms(i)):
                    continue
                x = v.args[1]
                x = subst(x, {m: ix for m in same})
                free = [y for y in subterms(x) if y.op == "mu" and y.args[0] == loop.id and y is not ix]
                if free:
                    continue
                body = subst(x, {ix: BOUND})
                if body.op == "elem" and body.args[1] is BOUND and length(body.args[0]) is bound:
                    t = body.args[0]
                else:
                    t = mk("tab", bound, body)
                tabs[mu] = (concat(i, t), ix, bound)
        return tabs

    def apply_tabs(self, loop, st, tabs):
        for mu, (t, ix, bound) in tabs.items():
            cell, path, init = loop.mus[mu]
            cur = st.cells.get(cell)
            if cur is None:
                continue
            if at(cur, path) is mu and st.facts.entails(sub(ix, bound)):
                st.cells[cell] = replace_at(cur, path, t)


def assume_contains(st, xs, t, val):
    """states in which membership of t in xs is val"""
    last = None
    rest = None
    if xs.op == "push":
        rest, last = xs.args
    elif xs.op == "arr":
        if not xs.args:
            return [] if val else [st]
        rest, last = mk("arr", *xs.args[:-1]), xs.args[-1]
    if last is None:
        return [st] if st.facts.assume(mk("contains", xs, t), val) else []
    c = eq(last, t)
    if not val:
        return assume_contains(st, rest, t, False) if st.facts.assume(c, False) else []
    out = []
    k = st.facts.eval(c)
    if k is not True:
        s2 = st if k is False else st.fork()
        if s2.facts.assume(c, False):
            out += assume_contains(s2, rest, t, True)
    if k is not False and st.facts.assume(c, True):
        out.append(st)
    return out


def part_of(v, base, end, front):
    """x with v = base[x..end] (front) or base[end..x]"""
    if v.op == "sub" and v.args[0] is base:
        if front and v.args[2] is end:
            return v.args[1]
        if not front and v.args[1] is end:
            return v.args[2]
    if v is base:
        if front and end is length(base):
            return I(0)
        if not front and end is I(0):
            return length(base)
    return None


def loses(v, mu, front):
    """v is mu without a fixed number of its first (last) elements"""
    if v.op != "sub" or v.args[0] is not mu:
        return False
    _, a, b = v.args
    if front:
        return a.op == "int" and a.args[0] > 0 and b is length(mu)
    d = sub(length(mu), b)
    return a is I(0) and d.op == "int" and d.args[0] > 0


def pushes(v, mu):
    """number of elements v has after mu"""
    n = 0
    while v.op == "push":
        n += 1
        v = v.args[0]
    return n if v is mu and n else None


def proportion(da, db):
    """(ka, kb) with kb * da = ka * db for small steps moving together"""
    if da == db:
        return 1, 1
    for x, y in zip(da, db):
        if x and y:
            if abs(x) > 64 or abs(y) > 64:
                break
            if all(p * y == q * x for p, q in zip(da, db)):
                return x, y
            break
    return 0, 0


def at(t, path):
    for i in path:
        t = t.args[i]
    return t


def replace_at(t, path, new):
    if not path:
        return new
    a = list(t.args)
    a[path[0]] = replace_at(a[path[0]], path[1:], new)
    return mk(t.op, *a)


def diff(a, b, path=()):
    """paths (into term args) of the smallest differing leaves"""
    if a is b:
        return []
    if a.op == b.op and (a.op in ("adt", "tup", "clo") or a.op.startswith("it_")) and len(a.args) == len(b.args):
        if a.op == "adt" and a.args[:2] != b.args[:2]:
            return [path]
        if a.op == "clo" and a.args[0] != b.args[0]:
            return [path]
        out = []
        for i, (x, y) in enumerate(zip(a.args, b.args)):
            if isinstance(x, Term) and isinstance(y, Term):
                out += diff(x, y, path + (i,))
            elif x != y:
                return [path]
        return out
    return [path]
