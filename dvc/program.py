"""Parses the repository's current source and answers questions about it: functions, classes, names, write effects."""
import ast, os

REPO = os.environ.get('VERIF_REPO', '/repo')
MODS = ['util', 'params', 'diagnostic_info', 'trust_region', 'model', 'controller', 'solver', 'hessian']
MUTATING = {'append', 'pop', 'insert', 'extend', 'remove', 'clear', 'sort', 'reverse', 'update', 'fill', 'resize', 'itemset', 'partition', 'setflags', 'put', 'setfield', 'setdefault', 'popitem'}


VIEWS = {'reshape', 'ravel', 'view', 'squeeze', 'transpose', 'swapaxes', 'diagonal', 'atleast_1d', 'atleast_2d', 'ascontiguousarray'}
INPLACE = {'copyto', 'put', 'place', 'putmask', 'fill_diagonal', 'put_along_axis', 'shuffle'}


class Fn(object):
    def __init__(self, q, node, mod, cls):
        self.q, self.node, self.mod, self.cls = q, node, mod, cls
        self.static = any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in node.decorator_list)
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None


class Program(object):
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.src, self.tree = {}, {}
        self.fns, self.classes = {}, {}       # 'model.Model.xopt' -> Fn ; 'model.Model' -> {method: q}
        self.names = {}                       # module -> {name: ('fn', q) | ('cls', q) | ('const', node) | ('ext', dotted)}
        d = os.path.join(self.repo, 'dfols')
        mods = [f[:-3] for f in sorted(os.listdir(d)) if f.endswith('.py') and f != '__init__.py']
        self.mods = [m for m in MODS if m in mods] + [m for m in mods if m not in MODS and m not in ('version',)]
        for m in self.mods:
            s = open(os.path.join(d, m + '.py')).read()
            self.src[m] = s
            self.tree[m] = ast.parse(s)
        for m in self.mods:
            self._scan(m)
        for m in self.mods:
            self._imports(m)
        self._eff = {}

    def _scan(self, m):
        N = self.names.setdefault(m, {})

        def scan(body):
            for st in body:
                if isinstance(st, ast.FunctionDef):
                    q = m + '.' + st.name
                    self.fns[q] = Fn(q, st, m, None)
                    N[st.name] = ('fn', q)
                elif isinstance(st, ast.ClassDef):
                    q = m + '.' + st.name
                    meth = {}
                    for b in st.body:
                        if isinstance(b, ast.FunctionDef):
                            self.fns[q + '.' + b.name] = Fn(q + '.' + b.name, b, m, q)
                            meth[b.name] = q + '.' + b.name
                    self.classes[q] = meth
                    N[st.name] = ('cls', q)
                elif isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
                    N[st.targets[0].id] = ('const', st.value)
                elif isinstance(st, ast.Import):
                    for a in st.names:
                        N[a.asname or a.name.split('.')[0]] = ('ext', a.name if a.asname else a.name.split('.')[0])
                elif isinstance(st, ast.Try):
                    # 'try: import trustregion ... except ImportError': the module is not installed here, take the handler
                    for h in st.handlers:
                        scan(h.body)
                elif isinstance(st, ast.If):
                    scan(st.body)
        scan(self.tree[m].body)

    def _exports(self, m):
        n = self.names[m].get('__all__')
        if n and n[0] == 'const' and isinstance(n[1], (ast.List, ast.Tuple)):
            return [e.value for e in n[1].elts]
        return [k for k in self.names[m] if not k.startswith('_')]

    def _imports(self, m):
        N = self.names[m]
        for st in self.tree[m].body:
            if isinstance(st, ast.ImportFrom):
                if st.level > 0:
                    src = st.module
                    if src not in self.names:
                        continue
                    for a in st.names:
                        if a.name == '*':
                            for k in self._exports(src):
                                if k in self.names[src]:
                                    N.setdefault(k, self.names[src][k] if self.names[src][k][0] != 'const' else ('constof', src, k))
                        elif a.name in self.names[src]:
                            v = self.names[src][a.name]
                            N[a.asname or a.name] = v if v[0] != 'const' else ('constof', src, a.name)
                elif st.module != '__future__':
                    for a in st.names:
                        N[a.asname or a.name] = ('ext', st.module + '.' + a.name)

    def attrs(self, cls):
        """Names assigned as self.NAME in any method of the class (an attribute hides a method of that name)."""
        if not hasattr(self, '_attrs'):
            self._attrs = {}
        if cls not in self._attrs:
            out = set()
            for q in self.classes.get(cls, {}).values():
                fn = self.fns[q]
                me = fn.params[0] if fn.params and not fn.static else None
                for n in ast.walk(fn.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == me:
                        out.add(n.attr)
            self._attrs[cls] = out
        return self._attrs[cls]

    # ------------------------------------------------------------------ effects
    def mutated_params(self):
        """function -> parameters whose argument may be written in place (through local names, slices and calls)"""
        if hasattr(self, '_mp'):
            return self._mp
        info = {}
        for q, fn in self.fns.items():
            al, direct, calls = {}, set(), []          # al: local name -> names it may share memory with

            def base(e):
                while isinstance(e, (ast.Subscript, ast.Starred)) or (isinstance(e, ast.Attribute) and e.attr in ('T', 'flat', 'real')) or \
                        (isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in VIEWS and not (isinstance(e.func.value, ast.Name) and e.func.value.id in ('np', 'numpy'))):
                    e = e.func.value if isinstance(e, ast.Call) else e.value
                if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in (VIEWS | {'asarray', 'asanyarray'}) and e.args:
                    return base(e.args[0])
                return {e.id} if isinstance(e, ast.Name) else base(e.body) | base(e.orelse) if isinstance(e, ast.IfExp) else set()
            for n in ast.walk(fn.node):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Name):
                            al.setdefault(t.id, set()).update(base(n.value))
                elif isinstance(n, ast.For) and isinstance(n.target, ast.Name):
                    al.setdefault(n.target.id, set()).update(base(n.iter))

                def wr(t):
                    if isinstance(t, (ast.Tuple, ast.List)):
                        for e in t.elts:
                            wr(e)
                    elif isinstance(t, ast.Subscript):
                        direct.update(base(t))
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        wr(t)
                elif isinstance(n, ast.AugAssign):
                    wr(n.target)
                    if isinstance(n.target, ast.Name):
                        direct.add(n.target.id)
                elif isinstance(n, ast.Delete):
                    for t in n.targets:
                        wr(t)
                elif isinstance(n, ast.Call):
                    if isinstance(n.func, ast.Attribute) and n.func.attr in MUTATING:
                        direct.update(base(n.func.value))
                    for k in n.keywords:
                        if k.arg == 'out':
                            direct.update(base(k.value))
                    if isinstance(n.func, ast.Attribute) and n.func.attr in INPLACE and n.args:
                        direct.update(base(n.args[0]))
                    calls.append(n)
            info[q] = (al, direct, calls, base)
        mp = {q: set() for q in self.fns}

        def close(q):
            al, direct, calls, base = info[q]
            fn = self.fns[q]
            W = set(direct)
            for n in calls:
                tg = []
                if isinstance(n.func, ast.Name):
                    v = self.names[fn.mod].get(n.func.id)
                    if v and v[0] == 'fn':
                        tg = [(v[1], 0)]
                    elif v and v[0] == 'cls' and v[1] + '.__init__' in self.fns:
                        tg = [(v[1] + '.__init__', 1)]
                elif isinstance(n.func, ast.Attribute):
                    tg = [(m[n.func.attr], 0 if self.fns[m[n.func.attr]].static else 1) for m in self.classes.values() if n.func.attr in m]
                for g, off in tg:
                    ps = self.fns[g].params[off:]
                    if any(isinstance(a, ast.Starred) for a in n.args):
                        for a in n.args:
                            W |= base(a) if mp[g] else set()
                        continue
                    for p, a in list(zip(ps, n.args)) + [(k.arg, k.value) for k in n.keywords]:
                        if p in mp[g] or p is None:
                            W |= base(a)
            todo = list(W)
            while todo:
                for x in al.get(todo.pop(), ()):
                    if x not in W:
                        W.add(x)
                        todo.append(x)
            return {p for p in fn.params + fn.kwonly if p in W}
        ch = True
        while ch:
            ch = False
            for q in self.fns:
                n = close(q)
                if n - mp[q]:
                    mp[q] |= n
                    ch = True
        self._mp = mp
        return mp

    def effects(self, q):
        """(attribute names possibly written, names possibly called that are not repository functions), transitively, by name."""
        if q in self._eff:
            return self._eff[q]
        seen, todo, W, C = set(), [q], set(), set()
        while todo:
            f = todo.pop()
            if f in seen or f not in self.fns:
                continue
            seen.add(f)
            w, c, callees = self._direct(f)
            W |= w
            C |= c
            todo.extend(callees)
        W |= {'[]' + p for p in self.mutated_params().get(q, ())}
        self._eff[q] = (W, C, seen)
        return self._eff[q]

    def inplace_args(self, fn, n):
        mp = self.mutated_params()
        tg = []
        if isinstance(n.func, ast.Name):
            v = self.names[fn.mod].get(n.func.id)
            if v and v[0] == 'fn':
                tg = [(v[1], 0)]
            elif v and v[0] == 'cls' and v[1] + '.__init__' in self.fns:
                tg = [(v[1] + '.__init__', 1)]
        elif isinstance(n.func, ast.Attribute):
            tg = [(m[n.func.attr], 0 if self.fns[m[n.func.attr]].static else 1) for m in self.classes.values() if n.func.attr in m]
        return [(g, a) for g, off in tg for p, a in list(zip(self.fns[g].params[off:], n.args)) + [(k.arg, k.value) for k in n.keywords] if p in mp[g]]

    def _direct(self, q):
        fn = self.fns[q]
        W, C, callees = set(), set(), set()
        N = self.names[fn.mod]
        aliases = {}     # local name -> attribute names it may alias (x = obj.attr)
        for n in ast.walk(fn.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                b = n.value
                while isinstance(b, ast.Subscript):
                    b = b.value
                if isinstance(b, ast.Attribute):
                    aliases.setdefault(n.targets[0].id, set()).add(b.attr)

        def target(t):
            if isinstance(t, ast.Attribute):
                W.add(t.attr)
            elif isinstance(t, ast.Subscript):
                b = t.value
                while isinstance(b, ast.Subscript):
                    b = b.value
                if isinstance(b, ast.Attribute):
                    W.add(b.attr)
                elif isinstance(b, ast.Name):
                    W.update(aliases.get(b.id, ()))
                    W.add('[]' + b.id)
            elif isinstance(t, (ast.Tuple, ast.List)):
                for e in t.elts:
                    target(e)
            elif isinstance(t, ast.Starred):
                target(t.value)
        for n in ast.walk(fn.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    target(t)
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                target(n.target)
                if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                    W.update(aliases.get(n.target.id, ()))
            elif isinstance(n, ast.Delete):
                for t in n.targets:
                    target(t)
            elif isinstance(n, ast.Call):
                f = n.func
                for k in n.keywords:
                    if k.arg == 'out':
                        target(ast.Subscript(value=k.value, slice=None, ctx=ast.Store()))
                if isinstance(f, ast.Attribute) and f.attr in INPLACE and n.args:
                    target(ast.Subscript(value=n.args[0], slice=None, ctx=ast.Store()))
                for cal, a in self.inplace_args(fn, n):        # attributes handed to a function that writes into its argument
                    if isinstance(a, ast.Attribute) or isinstance(a, ast.Subscript) or (isinstance(a, ast.Name) and a.id in aliases):
                        target(ast.Subscript(value=a, slice=None, ctx=ast.Store()))
                if isinstance(f, ast.Name):
                    v = N.get(f.id)
                    if v and v[0] == 'fn':
                        callees.add(v[1])
                    elif v and v[0] == 'cls':
                        callees.add(v[1] + '.__init__')
                    else:
                        C.add(f.id)
                        for a in aliases.get(f.id, ()):
                            C.add(a)
                elif isinstance(f, ast.Attribute):
                    hit = False
                    for cq, meth in self.classes.items():
                        if f.attr in meth:
                            callees.add(meth[f.attr])
                            hit = True
                    if f.attr in MUTATING:
                        b = f.value
                        while isinstance(b, ast.Subscript):
                            b = b.value
                        if isinstance(b, ast.Attribute):
                            W.add(b.attr)
                        elif isinstance(b, ast.Name):
                            W.update(aliases.get(b.id, ()))
                            W.add('[]' + b.id)
                    if not hit:
                        C.add(f.attr)
                # functions passed as values may be called by the callee
                for a in list(n.args) + [k.value for k in n.keywords]:
                    if isinstance(a, ast.Name):
                        v = N.get(a.id)
                        if v and v[0] == 'fn':
                            callees.add(v[1])
        return W, C, callees
