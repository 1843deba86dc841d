"""whole-program syntactic/type-based facts: accesses to structure fields, call graph with function tables, reachability"""
from collections import defaultdict


class Scan:
    def __init__(self, p):
        self.p = p
        self.loads = defaultdict(set)     # (struct, field) -> {function}
        self.stores = defaultdict(set)
        self.escapes = defaultdict(set)
        self.tables = defaultdict(set)    # field name -> {function stored there}
        self.calls = {}                   # function -> [(callee names or None, inst)]
        self.extern = defaultdict(list)   # external name -> [(function, inst)]
        for f in p.allfuncs():
            self._fn(f)
        self._globals()

    def field(self, f, inst):
        """(struct, field) of a gep with constant struct indices, innermost"""
        ty, ops = inst.x
        cur, out = ty, None
        for n, (t, v) in enumerate(ops[1:]):
            if n == 0:
                continue
            if cur.k == 'struct':
                if v[0] != 'int' and v[0] != 'k' and not isinstance(v[1], int):
                    return out
                k = int(v[1])
                nm = self.p.fieldname(cur.a, k)
                out = (cur.a, nm)
                st = f.module.structs.get(cur.a)
                if st is None or k >= len(st):
                    return out
                cur = st[k]
            elif cur.k == 'array':
                cur = cur.b
            else:
                return out
        return out

    def _fn(self, f):
        geps = {}
        ld = {}
        for i in f.insts():
            if i.op == 'gep':
                r = self.field(f, i)
                if r:
                    geps[i.res] = r
                    continue
            if i.op == 'load' and i.ops and i.ops[0][0] == 'reg' and i.ops[0][1] in geps:
                self.loads[geps[i.ops[0][1]]].add(f)
                ld[i.res] = geps[i.ops[0][1]]
            elif i.op == 'store':
                v, p = i.ops[0], i.ops[1]
                if p[0] == 'reg' and p[1] in geps:
                    self.stores[geps[p[1]]].add(f)
                    if v[0] == 'glob':
                        g = self.p.resolve(v[1], f.module)
                        if g is not None:
                            self.tables[geps[p[1]][1]].add(g)
                if v[0] == 'reg' and v[1] in geps:
                    self.escapes[geps[v[1]]].add(f)
            elif i.op == 'call':
                for t, v in i.x.get("args", ()):
                    if v[0] == 'reg' and v[1] in geps:
                        self.escapes[geps[v[1]]].add(f)
        cl = []
        for i in f.insts():
            if i.op == 'call':
                c = i.x.get("callee")
                if c is None:
                    continue
                if c[0] == 'glob':
                    cl.append((c[1], None, i))
                elif c[0] == 'reg':
                    cl.append((None, ld.get(c[1]), i))
        self.calls[f] = cl

    def _globals(self):
        """function tables in constant initialisers: element k of a struct global"""
        for m in self.p.modules:
            for g in m.globals.values():
                if g.init is not None and g.init[0] == 'agg' and g.ty.k == 'struct':
                    for k, v in enumerate(g.init[1]):
                        if v[0] == 'glob':
                            h = self.p.resolve(v[1], m)
                            if h is not None:
                                self.tables[self.p.fieldname(g.ty.a, k)].add(h)

    def callees(self, f):
        """[(target Function or external name, inst)]"""
        out = []
        for nm, fld, i in self.calls.get(f, ()):
            if nm is not None:
                g = self.p.resolve(nm, f.module)
                out.append((g if g is not None else nm, i))
            elif fld is not None:
                for g in self.tables.get(fld[1], ()):
                    out.append((g, i))
                if not self.tables.get(fld[1]):
                    out.append(("*" + str(fld[1]), i))
            else:
                out.append(("*?", i))
        return out

    def reach(self, roots, stop=()):
        """functions reachable from roots, with one path each: {function or name: (caller, inst)}"""
        seen = {}
        todo = []
        for r in roots:
            seen[r] = None
            todo.append(r)
        while todo:
            f = todo.pop(0)
            if isinstance(f, str):
                continue
            for g, i in self.callees(f):
                if g in seen or (not isinstance(g, str) and g.name in stop) or g in stop:
                    continue
                seen[g] = (f, i)
                todo.append(g)
        return seen

    def path(self, seen, g):
        out = []
        while g is not None:
            out.append(g if isinstance(g, str) else g.name)
            x = seen.get(g)
            g = x[0] if x else None
        return " <- ".join(out)
