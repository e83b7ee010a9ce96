"""Path-sensitive interprocedural dataflow over exported MIR.

A trace-partitioned abstract interpreter.  Values are provenance terms (which parameter, field,
constant, library call result a value was built from), memory is a set of abstract objects, loops are
widened by anti-unification (every location that can change in an iteration becomes a `phi` symbol),
library calls are uninterpreted effects that are recorded as events.  Nothing is executed and no
solver is involved: branch facts only prune a branch whose variant/constant/boolean was already fixed
on the same path.
"""
import json, sys
sys.setrecursionlimit(20000)

OPT = 'std::option::Option'
RES = 'std::result::Result'
BOX = 'std::boxed::Box'
ASYNC = 'futures::Async'
PHASE = 'handy_async::future::Phase'

UNIT = ('adt', '()', 0, ())
TRUE = ('int', 1)
FALSE = ('int', 0)


def adt(path, variant, *fields):
    return ('adt', path, variant, tuple(fields))


def some(v): return adt(OPT, 1, v)
NONE = adt(OPT, 0)
def ok(v): return adt(RES, 0, v)
def err(v): return adt(RES, 1, v)


class AnalysisError(Exception):
    pass


def tail_calls(body):
    """a call of a function to itself whose result it returns (at most tracked on the way) is a jump back to its start"""
    n = body['nargs']
    for bl in body['blocks']:
        t = bl['t']
        if t[0] != 'call' or bl['cleanup'] or t[1].get('inst') != body['key'] or t[4] is None or len(t[2]) != n or len(t[3]) != 1:
            continue
        if any(a[0] in ('c', 'm') and 1 <= a[1][0] <= n and a[1] != [i + 1] for i, a in enumerate(t[2])):
            continue
        cur, bb, seen, good = t[3][0], t[4], set(), False
        while bb not in seen:
            seen.add(bb)
            b = body['blocks'][bb]
            for s in b['s']:
                if s[0] == '=' and s[2][0] == 'use' and s[2][1][0] in ('c', 'm') and s[2][1][1] == [cur] and len(s[1]) == 1:
                    cur = s[1][0]
                elif s[0] == '=' and (s[2][0] not in ('ref', 'agg') or len(s[1]) != 1 or s[1][0] in (0, cur)):
                    cur = None
                elif s[0] not in ('=', 'dead', 'live'):
                    cur = None
            u = b['t']
            if cur is None:
                break
            if u[0] == 'ret':
                good = cur == 0
                break
            if u[0] == 'goto':
                bb = u[1]
            elif u[0] == 'drop' and u[1][0] != cur:
                bb = u[2]
            elif u[0] == 'call' and u[1]['path'] == 'trackable::Trackable::track' and u[4] is not None:
                bb = u[4]
            else:
                break
        if good:
            for i, a in enumerate(t[2]):
                if a != ['m', [i + 1]]:
                    bl['s'].append(['=', [i + 1], ['use', a], ''])
            bl['t'] = ['goto', 0]


class Program:
    def __init__(self, path):
        with open(path) as f:
            d = json.load(f)
        self.d = d
        self.types = d['types']
        self.adts = d['adts']
        self.bodies = d['bodies']
        self.impls = d['impls']
        self.items = d['items']
        self.roots = d['roots']
        self.local_paths = set(b['path'] for b in self.bodies.values() if b['local'])
        self._loops = {}
        self._reach = {}
        for b in self.bodies.values():
            if b['local']:
                tail_calls(b)

    # ---- types
    def ty(self, i): return self.types[i]
    def tys(self, i): return self.types[i]['s']

    def pointee(self, i):
        t = self.types[i]
        if t['k'] in ('ref', 'ptr'):
            return t['args'][0]
        if t['k'] == 'adt' and t['path'] == BOX:
            return t['args'][0]
        return None

    def variant_name(self, path, v):
        a = self.adts.get(path)
        if not a or v is None or v >= len(a['variants']):
            return str(v)
        return a['variants'][v]['name']

    def variant_index(self, path, name):
        for i, v in enumerate(self.adts[path]['variants']):
            if v['name'] == name:
                return i
        raise AnalysisError('no variant %s::%s' % (path, name))

    def discr_to_variant(self, path, d):
        for i, v in enumerate(self.adts[path]['variants']):
            if v['discr'] == d:
                return i
        return None

    def field_names(self, tyid, variant):
        t = self.types[tyid]
        if t['k'] == 'adt':
            a = self.adts[t['path']]
            vi = variant if variant is not None else 0
            return [str(x) for x in a['variants'][vi]['fields']]
        if t['k'] in ('tuple', 'closure'):
            return [str(i) for i in range(len(t['args']))]
        return None

    # ---- lookup
    def find(self, pred):
        return [b for b in self.bodies.values() if pred(b)]

    def root_fn(self, path):
        """The (identity-instantiated) body of the local fn with this path."""
        c = [b for k, b in self.bodies.items() if b['path'] == path and b['local']]
        r = [b for b in c if b['key'] in self.rootset()]
        if r:
            return r[0]
        return c[0] if c else None

    def rootset(self):
        if not hasattr(self, '_rs'):
            self._rs = set(self.roots)
        return self._rs

    def impl_method(self, trait, self_pred, name):
        """Identity-instantiated bodies of `name` in impls of `trait` whose self type matches."""
        out = []
        for k in self.roots:
            b = self.bodies[k]
            if b.get('trait') == trait and b.get('name') == name and self_pred(self.types[b['self_ty']]):
                out.append(b)
        return out

    # ---- loops
    def succs(self, body, i):
        t = body['blocks'][i]['t']
        k = t[0]
        if k == 'goto':
            return [t[1]]
        if k == 'switch':
            return [x[1] for x in t[2]] + [t[3]]
        if k == 'call':
            return [t[4]] if t[4] is not None else []
        if k == 'assert':
            return [t[4]]
        if k == 'drop':
            return [t[2]]
        return []

    def loops(self, body):
        k = body['key']
        if k in self._loops:
            return self._loops[k]
        n = len(body['blocks'])
        succ = [self.succs(body, i) for i in range(n)]
        pred = [[] for _ in range(n)]
        order, seen = [], set()
        stack = [(0, iter(succ[0]))]
        seen.add(0)
        while stack:
            x, it = stack[-1]
            for y in it:
                if y not in seen:
                    seen.add(y)
                    stack.append((y, iter(succ[y])))
                    break
            else:
                order.append(x)
                stack.pop()
        for x in seen:
            for y in succ[x]:
                pred[y].append(x)
        rpo = order[::-1]
        dom = {x: set(seen) for x in seen}
        dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for x in rpo:
                if x == 0:
                    continue
                ps = [dom[p] for p in pred[x]]
                nd = set.intersection(*ps) if ps else set()
                nd = nd | {x}
                if nd != dom[x]:
                    dom[x] = nd
                    ch = True
        loops = {}
        for x in seen:
            for y in succ[x]:
                if y in dom[x]:
                    s = loops.setdefault(y, {y})
                    work = [x]
                    while work:
                        z = work.pop()
                        if z not in s:
                            s.add(z)
                            work += pred[z]
        self._loops[k] = loops
        return loops

    def callees(self, body):
        for bl in body['blocks']:
            if bl['cleanup']:
                continue
            if bl['t'][0] == 'call':
                yield bl['t'][1], bl


class Event(tuple):
    """('call', path, args, result, callee, site) | ('loop', id) | ('await', fut, outcome, value)"""
    __slots__ = ()


class State:
    __slots__ = ('objs', 'facts', 'ev', 'n', 'stack', 'nev')

    def __init__(self):
        self.objs = {}
        self.facts = {}
        self.ev = None
        self.n = 0
        self.stack = ()
        self.nev = 0

    def copy(self):
        s = State()
        s.objs = dict(self.objs)
        s.facts = dict(self.facts)
        s.ev = self.ev
        s.n = self.n
        s.stack = self.stack
        s.nev = self.nev
        return s

    def fresh(self):
        self.n += 1
        return self.n

    def emit(self, e):
        self.ev = (self.ev, e)
        self.nev += 1

    def events(self):
        out = []
        x = self.ev
        while x is not None:
            out.append(x[1])
            x = x[0]
        return out[::-1]


class Path:
    """Terminal of one abstract path."""

    def __init__(self, state, kind, value=None, info=None):
        self.state, self.kind, self.value, self.info = state, kind, value, info
        self._ev = None

    @property
    def events(self):
        if self._ev is None:
            self._ev = self.state.events()
        return self._ev

    def calls(self, *names):
        return [e for e in self.events if e[0] == 'call' and (not names or any(match_name(e, n) for n in names))]


def match_name(e, n):
    """n matches the callee's (trait) path exactly or as a `::`-suffix."""
    for p in (e[1], e[4].get('rpath', '')):
        if p == n or p.endswith('::' + n):
            return True
    return False


def is_sym(v):
    return v[0] not in ('int', 'str', 'bytes', 'adt', 'closure', 'fn', 'ref', 'fut')


# calls that have no effect relevant to any rule and are not recorded
SILENT_CRATES = ('trackable::', 'slog::', 'core::fmt::', 'std::fmt::', '<slog::')
IMPURE = {
    'std::time::SystemTime::now', 'std::time::Instant::now',
    'fibers::sync::mpsc::Sender::<T>::send', 'fibers::sync::oneshot::Sender::<T>::send',
    'fibers::sync::mpsc::channel', 'fibers::sync::oneshot::channel',
}


class Interp:
    def __init__(self, prog, unroll=(), limit=6, hooks=None, max_paths=20000, opaque=(), rec_limit=1, log_off=True):
        self.p = prog
        self.unroll = unroll            # functions(body) -> heads of the loops of this body that are unrolled
        self.limit = limit
        self.hooks = hooks or []        # fn(interp, state, callee, args, dty) -> None | [(state, outcome)]
        self.max_paths = max_paths
        self.opaque = opaque            # body paths never inlined
        self.rec_limit = rec_limit
        self.npaths = 0
        self.visited = set()            # local body paths analysed
        self.note_errs = False          # record the failures of inlined functions
        self.rtypes = {}                # canonical call term -> its Result type
        self.sites = set()              # library call sites seen
        self.dry = 0
        self.fut_impls = None
        self.acts = {}
        self.phi_in = {}                # phi -> values that flow into it

    # ------------------------------------------------------------------ memory
    def load(self, st, obj, proj):
        v = self.objval(st, obj)
        for e in proj:
            v = self.getf(v, e)
        return v

    def objval(self, st, obj):
        if obj in st.objs:
            return st.objs[obj]
        if obj[0] == '*':
            v = ('deref', obj[1])
            st.objs[obj] = v
            return v
        if obj[0] == 'static':
            return ('static', obj[1])
        return ('undef', obj)

    def fname(self, e):
        _, variant, idx, tyid = e
        names = self.p.field_names(tyid, variant) if tyid is not None else None
        vn = None
        if variant is not None and tyid is not None and self.p.types[tyid]['k'] == 'adt':
            vn = self.p.variant_name(self.p.types[tyid]['path'], variant)
        return vn, (names[idx] if names and idx < len(names) else str(idx))

    def getf(self, v, e):
        k = e[0]
        if k == 'f':
            if v[0] == 'adt':
                if e[2] < len(v[3]):
                    return v[3][e[2]]
                return ('undef', v, e[2])
            if v[0] == 'closure':
                return v[2][e[2]]
            vn, fn = self.fname(e)
            return ('field', v, vn, fn)
        if k == 'i':
            if v[0] == 'adt' and v[1] == '[]' and e[1][0] == 'int' and e[1][1] < len(v[3]):
                return v[3][e[1][1]]
            w = window(v)
            if w:
                return ('index', w[0], plus(w[1], e[1]))
            return ('index', v, e[1])
        if k == 'ci':
            _, off, mn, fe = e
            w = None if fe else window(v)
            if w:
                return ('index', w[0], plus(w[1], ('int', off)))
            if v[0] == 'adt' and v[1] == '[]':
                j = len(v[3]) - off if fe else off
                if 0 <= j < len(v[3]):
                    return v[3][j]
            return ('index', v, ('int', -off if fe else off))
        if k == 'ss':
            return ('subslice', v, e[1], e[2], e[3])
        return ('proj', v, e)

    def expand(self, v, tyid, variant):
        if v[0] in ('adt', 'closure'):
            if v[0] == 'adt' and variant is not None and v[2] != variant and v[1] != '()':
                pass
            else:
                return v
        t = self.p.types[tyid]
        names = self.p.field_names(tyid, variant)
        if names is None:
            return None
        vn = self.p.variant_name(t['path'], variant) if (variant is not None and t['k'] == 'adt') else None
        fs = tuple(('field', v, vn, n) for n in names)
        if t['k'] == 'adt':
            return ('adt', t['path'], variant or 0, fs)
        return ('adt', '()', 0, fs)

    def store(self, st, obj, proj, val):
        if not proj:
            st.objs[obj] = val
            return
        cur = self.objval(st, obj)
        st.objs[obj] = self.setf(st, cur, proj, 0, val)

    def setf(self, st, cur, proj, i, val):
        if i == len(proj):
            return val
        e = proj[i]
        if e[0] == 'f':
            x = self.expand(cur, e[3], e[1])
            if x is None:
                return ('upd', 'store', st.fresh(), cur)
            if x[0] == 'closure':
                fs = list(x[2])
                fs[e[2]] = self.setf(st, fs[e[2]], proj, i + 1, val)
                return ('closure', x[1], tuple(fs))
            fs = list(x[3])
            while len(fs) <= e[2]:
                fs.append(('undef', 'f', len(fs)))
            fs[e[2]] = self.setf(st, fs[e[2]], proj, i + 1, val)
            return ('adt', x[1], x[2], tuple(fs))
        return ('upd', 'store', st.fresh(), cur, val)

    def unbox(self, st, v):
        """Pointer held by a Box/Unique/NonNull value."""
        while v[0] == 'adt' and len(v[3]) >= 1 and v[1] != '()':
            v = v[3][0]
        return v

    def place(self, st, fr, pl):
        """-> (obj, proj, tyid)"""
        body = fr['body']
        obj, proj = ('L', fr['id'], pl[0]), ()
        ty = body['locals'][pl[0]]
        variant = None
        for e in pl[1:]:
            if e == '*' or e == '*raw':
                v = self.load(st, obj, proj)
                if v[0] == 'adt':
                    v = self.unbox(st, v)
                if v[0] == 'ref':
                    obj, proj = v[1], v[2]
                else:
                    obj, proj = ('*', v), ()
                nt = self.p.pointee(ty)
                ty = nt if nt is not None else ty
                variant = None
            elif e == '?':
                proj = proj + (('?',),)
            elif e[0] == 'f':
                proj = proj + (('f', variant, e[1], ty),)
                ty = e[2]
                variant = None
            elif e[0] == 'd':
                variant = e[1]
            elif e[0] == 'i':
                iv = self.load(st, ('L', fr['id'], e[1]), ())
                proj = proj + (('i', iv),)
                t = self.p.types[ty]
                if t.get('args'):
                    ty = t['args'][0]
            elif e[0] == 'ci':
                proj = proj + (('ci', e[1], e[2], e[3]),)
                t = self.p.types[ty]
                if t.get('args'):
                    ty = t['args'][0]
            elif e[0] == 'ss':
                proj = proj + (('ss', e[1], e[2], e[3]),)
        return obj, proj, ty

    def read_place(self, st, fr, pl):
        o, p, _ = self.place(st, fr, pl)
        return self.load(st, o, p)

    # ------------------------------------------------------------------ constants
    def constval(self, st, c):
        if 'promoted' in c:
            b = self.p.bodies[c['promoted']]
            rs = self.run_body(st, b, [], keep=True)
            rets = [r for r in rs if r[1][0] == 'ret']
            if len(rets) == 1:
                s2, o = rets[0]
                st.objs, st.n = s2.objs, s2.n
                return o[1]
            return ('const', c['promoted'])
        return self.cv(st, c.get('v', {}), c['ty'], c.get('item'))

    def cv(self, st, v, tyid, item=None):
        if 'int' in v:
            return ('int', v['int'])
        if 'str' in v:
            return ('str', v['str'])
        if 'bytes' in v:
            return ('bytes', tuple(v['bytes']))
        if 'fn' in v:
            return ('fn', Callee(v['fn']))
        if 'closure' in v:
            return ('closure', v['closure'], ())
        if 'static' in v:
            return ('ref', ('static', v['static']), (), bool(v.get('mut')))
        if 'ref' in v:
            inner = self.cv(st, v['ref'], None)
            o = ('K', st.fresh())
            st.objs[o] = inner
            return ('ref', o, (), False)
        if 'fields' in v:
            fs = tuple(self.cv(st, x, None) for x in v['fields'])
            path = '()'
            if tyid is not None:
                t = self.p.types[tyid]
                path = t['path'] if t['k'] == 'adt' else ('[]' if t['k'] == 'slice' else '()')
            return ('adt', path, v['variant'] or 0, fs)
        if tyid is not None:
            t = self.p.types[tyid]
            if t['s'] == '()':
                return UNIT
            if t['k'] == 'adt':
                a = self.p.adts.get(t['path'])
                if a and a['kind'] == 'struct' and not a['variants'][0]['fields']:
                    return ('adt', t['path'], 0, ())
        return ('const', item or v.get('other', '?'))

    def operand(self, st, fr, op):
        k = op[0]
        if k in ('c', 'm'):
            return self.read_place(st, fr, op[1])
        if k == 'k':
            return self.constval(st, op[1])
        return ('int', 0)   # runtime checks: off

    # ------------------------------------------------------------------ rvalues
    def rvalue(self, st, fr, r):
        k = r[0]
        if k == 'use':
            return self.operand(st, fr, r[1])
        if k == 'ref':
            o, p, _ = self.place(st, fr, r[2])
            if o[0] == '*' and not p and o not in st.objs:
                # reborrow of an untouched symbolic pointer is the pointer
                return o[1] if not r[1] else ('ref', o, p, True)
            if p and p[-1][0] == 'ss' and p[-1][3] and p[-1][2] == 0 and not r[1]:
                # the rest of a slice after its first elements
                x = self.snapv(st, ('ref', o, p[:-1], False))
                if peel(x)[0] != 'adt':
                    return part(x, ('int', p[-1][1]), None)
            return ('ref', o, p, r[1])
        if k == 'rawptr':
            o, p, _ = self.place(st, fr, r[1])
            if o[0] == '*' and not p and o not in st.objs:
                return o[1]
            return ('ref', o, p, True)
        if k == 'cast':
            v = self.operand(st, fr, r[2])
            kind = r[1]
            if kind.startswith('PointerCoercion') or kind.startswith('PtrToPtr') or kind.startswith('Subtype'):
                return v
            if kind.startswith('Transmute'):
                tt = self.p.types[r[3]]
                if tt['k'] in ('ptr', 'ref'):
                    return self.unbox(st, v)
                return v
            if v[0] == 'int' and kind.startswith('IntToInt'):
                return ('int', wrap_int(v[1], self.p.tys(r[3])))
            return ('cast', self.p.tys(r[4]), self.p.tys(r[3]), v)
        if k == 'bin':
            a = self.operand(st, fr, r[2])
            b = self.operand(st, fr, r[3])
            return binop(r[1], a, b)
        if k == 'un':
            a = self.operand(st, fr, r[2])
            return unop(r[1], a, self, st)
        if k == 'discr':
            v = self.read_place(st, fr, r[1])
            if v[0] == 'adt' and v[1] in self.p.adts:
                return ('int', self.p.adts[v[1]]['variants'][v[2]]['discr'])
            t = self.p.types[r[2]]
            if t['k'] == 'adt':
                f = st.facts.get(('var', canon(v)))
                if f is not None:
                    return ('int', self.p.adts[t['path']]['variants'][f]['discr'])
                return ('discr', v, t['path'])
            return ('discr', v, t['s'])
        if k == 'agg':
            ops = tuple(self.operand(st, fr, o) for o in r[2])
            kk = r[1]
            if kk[0] == 'adt':
                return ('adt', kk[1], kk[2], ops)
            if kk[0] == 'closure':
                return ('closure', kk[1], ops)
            if kk[0] == 'array':
                return ('adt', '[]', 0, ops)
            return ('adt', '()', 0, ops)
        if k == 'repeat':
            return ('repeat', self.operand(st, fr, r[1]), r[2])
        return ('rv', str(r))

    # ------------------------------------------------------------------ running
    def run_body(self, st, body, args, keep=False):
        """-> list of (state, outcome); outcome = ('ret', v) | ('panic', info) | ('loopback', info) | ('limit',)"""
        depth = sum(1 for k in st.stack if k == body['key'])
        if depth > self.rec_limit:
            return None
        if body['local']:
            self.visited.add(body['path'])
        fid = st.fresh()
        fr = {'body': body, 'id': fid, 'unroll': frozenset().union(*[f(body) for f in self.unroll])}
        if body.get('spread') is not None and len(args) != body['nargs']:
            pass
        for i, a in enumerate(args):
            st.objs[('L', fid, i + 1)] = a
        old = st.stack
        st.stack = old + (body['key'],)
        outs = self.run_from(st, fr, 0, {}, frozenset())
        res = []
        for s, o in outs:
            s.stack = old if o[0] == 'ret' else s.stack
            if self.note_errs and old and body['local'] and o[0] == 'ret' and o[1][0] == 'adt' and o[1][1] == RES and o[1][2] == 1:
                s.emit(('failed', body['path'], body['locals'][0], o[1]))
            if not keep and o[0] == 'ret':
                for k in [k for k in s.objs if k[0] == 'L' and k[1] == fid]:
                    del s.objs[k]
            res.append((s, o))
        return res

    def run_from(self, st, fr, bb, visits, active, only=None, backs=None, head=None):
        """Explore from block bb.  `active`: loop heads being widened in this frame.
        dry run: only=set of loop blocks, backs collects states arriving at head."""
        body = fr['body']
        loops = self.p.loops(body)
        out = []
        work = [(st, bb, visits, active, True)]
        while work:
            st, bb, visits, active, first = work.pop()
            if only is not None and bb not in only:
                continue
            if bb in loops and not (first and bb == head):
                if backs is not None and bb == head:
                    backs.append(st)
                    continue
                if bb in fr['unroll']:
                    c = visits.get(bb, 0) + 1
                    if c > self.limit:
                        out.append((st, ('limit', body['path'])))
                        continue
                    visits = dict(visits)
                    visits[bb] = c
                elif bb in active:
                    out.append((st, ('loopback', (body['path'], bb), active_info(active, bb))))
                    continue
                else:
                    st, snap = self.widen(st, fr, bb, loops[bb], active)
                    st.emit(('loop', (body['path'], bb), body['blocks'][bb]['sp']))
                    active = active | {bb}
            # leaving a loop deactivates it
            if active:
                active = frozenset(h for h in active if bb in loops.get(h, ()))
            blk = body['blocks'][bb]
            for s in blk['s']:
                if s[0] == '=':
                    v = self.rvalue(st, fr, s[2])
                    o, p, _ = self.place(st, fr, s[1])
                    self.store(st, o, p, v)
                elif s[0] == 'setd':
                    o, p, ty = self.place(st, fr, s[1])
                    cur = self.load(st, o, p)
                    t = self.p.types[ty]
                    if cur[0] == 'adt' and cur[1] == t.get('path'):
                        self.store(st, o, p, ('adt', cur[1], s[2], cur[3]))
                    else:
                        self.store(st, o, p, ('adt', t.get('path', '?'), s[2], ()))
            t = blk['t']
            k = t[0]
            if k == 'goto':
                work.append((st, t[1], visits, active, False))
            elif k == 'ret':
                out.append((st, ('ret', self.objval(st, ('L', fr['id'], 0)))))
            elif k == 'unreachable':
                pass
            elif k == 'resume':
                pass
            elif k == 'drop':
                v = self.read_place(st, fr, t[1])
                self.on_drop(st, v, t[3], blk['sp'])
                work.append((st, t[2], visits, active, False))
            elif k == 'switch':
                v = self.operand(st, fr, t[1])
                for s2, tgt in self.branch(st, v, t[2], t[3]):
                    work.append((s2, tgt, visits, active, False))
            elif k == 'assert':
                v = self.operand(st, fr, t[1])
                b = self.known_bool(st, v)
                if b is None:
                    s2 = st.copy()
                    self.assume(s2, v, not t[2])
                    out.append((s2, ('panic', ('assert', t[3], blk['sp'], body['path'], v, self.assert_ty(body, t)))))
                    self.assume(st, v, t[2])
                    work.append((st, t[4], visits, active, False))
                elif b == t[2]:
                    work.append((st, t[4], visits, active, False))
                else:
                    out.append((st, ('panic', ('assert', t[3], blk['sp'], body['path'], v, self.assert_ty(body, t)))))
            elif k == 'call':
                args = [self.operand(st, fr, a) for a in t[2]]
                c = t[1]
                if 'ptr' in c:
                    fv = self.operand(st, fr, c['ptr'])
                    rs = self.call_value(st, fv, args, blk['sp'], t[5])
                else:
                    rs = self.call(st, c, args, blk['sp'], t[5], fr)
                for s2, o in rs:
                    if o[0] == 'ret':
                        if t[4] is None:
                            out.append((s2, ('panic', ('diverge', c.get('path', '?'), blk['sp'], body['path'], None))))
                            continue
                        ob, p, _ = self.place(s2, fr, t[3])
                        self.store(s2, ob, p, o[1])
                        work.append((s2, t[4], visits, active, False))
                    else:
                        if o[0] == 'panic' and body['local'] and o[1][3] not in self.p.local_paths:
                            # a library function panics: blame the call
                            o = ('panic', ('call', c.get('path', '<fn value>'), blk['sp'], body['path'], self.snap(s2, args), o[1][:3]))
                        out.append((s2, o))
            else:
                raise AnalysisError('terminator %r in %s' % (t[0], body['path']))
            if len(out) + len(work) > self.max_paths:
                raise AnalysisError('path budget exceeded in %s' % body['path'])
        return out

    def assert_ty(self, body, t):
        """the operand type of a checked operation"""
        if t[3].startswith('overflow') and t[1][0] in 'mc' and isinstance(t[1][1], list):
            ty = self.p.types[body['locals'][t[1][1][0]]]
            if ty['k'] == 'tuple':
                return self.p.tys(ty['args'][0])
        return None

    def on_drop(self, st, v, ty, sp):
        pass

    # ---- widening
    def widen(self, st, fr, head, blocks, active):
        act = self.acts.setdefault((st.fresh(), frozenset(st.objs.items())), len(self.acts))
        S = st
        changed = set()
        for it in range(12):
            self.dry += 1
            backs = []
            self.run_from(S.copy(), fr, head, {}, active | {head}, only=blocks, backs=backs, head=head)
            self.dry -= 1
            objs = dict(S.objs)
            diff = False
            self.at = S
            for b in backs:
                for o, v in list(objs.items()):
                    w = b.objs.get(o, v)
                    if w != v:
                        g = self.gen(v, w, (fr['body']['path'], head, act), oname(o))
                        if g != v:
                            objs[o] = g
                            diff = True
                for o, w in b.objs.items():
                    # symbolic objects first touched inside the loop
                    if o not in objs and o[0] == '*' and it < 8:
                        base = ('deref', o[1])
                        if w != base:
                            g = self.gen(base, w, (fr['body']['path'], head, act), oname(o))
                            objs[o] = g
                            diff = True
            n = max([S.n] + [b.n for b in backs])
            S = S.copy()
            S.objs = objs
            S.n = n
            if not diff:
                return S, None
        raise AnalysisError('loop did not stabilise in %s' % fr['body']['path'])

    def gen(self, a, b, lid, where):
        if a == b:
            return a
        if a[0] == 'phi' and a[1] == lid and a[2] == where:
            self.phi_in.setdefault((lid, where), set()).add(b)
            return a
        if a[0] == 'adt' and b[0] == 'adt' and a[1] == b[1] and a[2] == b[2] and len(a[3]) == len(b[3]):
            return ('adt', a[1], a[2], tuple(self.gen(x, y, lid, where + (i,)) for i, (x, y) in enumerate(zip(a[3], b[3]))))
        if a[0] == 'closure' and b[0] == 'closure' and a[1] == b[1]:
            return ('closure', a[1], tuple(self.gen(x, y, lid, where + (i,)) for i, (x, y) in enumerate(zip(a[2], b[2]))))
        if a[0] == 'undef':
            # first assigned in the loop: not live at the head
            return a
        w = window(b)
        if w and w[2] is None and where[-1:] != ('from',):
            # a walk along a sequence by taking off its front: a position in it
            u = window(a)
            base, at = (u[0], u[1]) if u and u[2] is None else (self.snapv(self.at, a), ('int', 0))
            if peel(base) == peel(w[0]):
                return part(w[0], self.gen(at, w[1], lid, where + ('from',)), None)
        self.phi_in.setdefault((lid, where), set()).update((a, b))
        return ('phi', lid, where, root(a))

    # ---- branching
    def known_bool(self, st, v):
        if v[0] == 'int':
            return bool(v[1])
        if v[0] == 'not':
            b = self.known_bool(st, v[1])
            return None if b is None else (not b)
        f = st.facts.get(('b', canon(v)))
        if f is not None:
            return f
        if v[0] == 'eq':
            return self.known_eq(st, v[1], v[2])
        if v[0] == 'lt' and (v[1][0] == 'int') != (v[2][0] == 'int'):
            return self.in_range(st, v)
        return None

    def in_range(self, st, v):
        """a comparison with a literal, from the comparisons of the same value with other literals"""
        left = v[1][0] == 'int'
        x = canon(v[2] if left else v[1])
        c = (v[1] if left else v[2])[1]
        f = st.facts.get(('is', x))
        if f is not None and f[0] == 'int':
            return c < f[1] if left else f[1] < c
        lo = hi = None
        for k, b in st.facts.items():
            if k[0] != 'b' or k[1][0] != 'lt':
                continue
            p, q = k[1][1], k[1][2]
            if q == x and p[0] == 'int':            # p < x
                if b:
                    lo = p[1] + 1 if lo is None else max(lo, p[1] + 1)
                else:
                    hi = p[1] if hi is None else min(hi, p[1])
            elif p == x and q[0] == 'int':          # x < q
                if b:
                    hi = q[1] - 1 if hi is None else min(hi, q[1] - 1)
                else:
                    lo = q[1] if lo is None else max(lo, q[1])
        if left:                                    # c < x
            if lo is not None and c < lo:
                return True
            if hi is not None and hi <= c:
                return False
        else:                                       # x < c
            if hi is not None and hi < c:
                return True
            if lo is not None and lo >= c:
                return False
        return None

    def known_eq(self, st, a, b):
        a, b = peel(a), peel(b)
        if a == b:
            return True
        lit = ('int', 'str', 'bytes')
        if a[0] in lit and b[0] in lit:
            return a[1] == b[1]
        for x, y in ((a, b), (b, a)):
            if y[0] in lit:
                f = st.facts.get(('is', canon(x)))
                if f is not None:
                    return f == y
                nf = st.facts.get(('isnot', canon(x)))
                if nf and y in nf:
                    return False
                if y[0] == 'int':
                    cx = canon(x)
                    f = st.facts.get(('b', cx)) if y[1] == 0 else None
                    if f is not None:
                        return not f
                    if st.facts.get(('b', ('lt', y, cx))) or st.facts.get(('b', ('lt', cx, y))) or st.facts.get(('b', ('lt', cx, ('int', y[1] + 1)))) is False:
                        return False
            if y[0] == 'adt' and x[0] == 'adt' and x[1] == y[1] and y[1] in self.p.adts:
                if x[2] != y[2]:
                    return False
                if not x[3] and not y[3]:
                    return True
            if y[0] == 'adt' and not y[3] and y[1] in self.p.adts and self.p.adts[y[1]]['kind'] == 'enum':
                f = st.facts.get(('var', canon(x)))
                if f is not None:
                    return f == y[2]
                nf = st.facts.get(('notvar', canon(x)))
                if nf and y[2] in nf:
                    return False
        return None

    def assume(self, st, v, b):
        """record fact v == b; returns False if contradictory"""
        kb = self.known_bool(st, v)
        if kb is not None:
            return kb == b
        if v[0] == 'not':
            return self.assume(st, v[1], not b)
        st.facts[('b', canon(v))] = b
        if v[0] == 'eq':
            x, y = peel(v[1]), peel(v[2])
            lit = ('int', 'str', 'bytes')
            for p, q in ((x, y), (y, x)):
                if q[0] in lit:
                    if b:
                        st.facts[('is', canon(p))] = q
                    else:
                        st.facts[('isnot', canon(p))] = st.facts.get(('isnot', canon(p)), frozenset()) | {q}
                if q[0] == 'int' and p[0] == 'discr' and p[2] in self.p.adts:
                    vi = self.p.discr_to_variant(p[2], q[1])
                    if vi is not None and b:
                        st.facts[('var', canon(p[1]))] = vi
                    elif vi is not None:
                        self.exclude(st, p[1], p[2], vi)
                if q[0] == 'adt' and not q[3] and q[1] in self.p.adts and self.p.adts[q[1]]['kind'] == 'enum':
                    if b:
                        st.facts[('var', canon(p))] = q[2]
                    else:
                        self.exclude(st, p, q[1], q[2])
        elif v[0] == 'call' and v[1].endswith('::contains') and len(v[2]) == 2:
            lst = peel(v[2][0])
            if lst[0] == 'adt' and lst[1] == '[]' and all(peel(q)[0] in ('int', 'str', 'bytes') for q in lst[3]):
                p = canon(peel(v[2][1]))
                qs = frozenset(peel(q) for q in lst[3])
                if not b:
                    st.facts[('isnot', p)] = st.facts.get(('isnot', p), frozenset()) | qs
                elif len(qs) == 1:
                    (st.facts[('is', p)],) = qs
        return True

    def exclude(self, st, v, path, variant):
        key = ('notvar', canon(v))
        s = st.facts.get(key, frozenset()) | {variant}
        st.facts[key] = s
        n = len(self.p.adts[path]['variants'])
        if len(s) == n - 1:
            (r,) = set(range(n)) - s
            st.facts[('var', canon(v))] = r

    def branch(self, st, v, targets, otherwise):
        if v[0] == 'int':
            for val, b in targets:
                if val == v[1] or (v[1] < 0 and val == (v[1] & ((1 << 128) - 1))) or same_bits(val, v[1]):
                    return [(st, b)]
            return [(st, otherwise)]
        res = []
        if v[0] == 'discr' and v[2] in self.p.adts:
            path, t = v[2], v[1]
            n = len(self.p.adts[path]['variants'])
            not_ = st.facts.get(('notvar', canon(t)), frozenset())
            seen = set()
            for val, b in targets:
                vi = self.p.discr_to_variant(path, val)
                seen.add(vi)
                if vi is None or vi in not_:
                    continue
                s2 = st.copy()
                s2.facts[('var', canon(t))] = vi
                res.append((s2, b))
            rest = set(range(n)) - seen - set(not_)
            if rest:
                s2 = st.copy()
                if len(rest) == 1:
                    s2.facts[('var', canon(t))] = rest.pop()
                else:
                    s2.facts[('notvar', canon(t))] = frozenset(not_) | frozenset(seen)
                res.append((s2, otherwise))
            return res
        # booleans / integers
        boolish = all(val in (0, 1) for val, _ in targets) and len(targets) == 1
        if boolish and v[0] in ('eq', 'lt', 'not', 'call', 'b', 'ovf', 'field', 'phi', 'deref', 'bin', 'upd', 'await', 'param', 'index'):
            val, b = targets[0]
            for want, tgt in ((bool(val), b), (not bool(val), otherwise)):
                s2 = st.copy()
                if self.assume(s2, v, want):
                    res.append((s2, tgt))
            return res
        f = st.facts.get(('is', canon(v)))
        if f is not None:
            return self.branch(st, f, targets, otherwise)
        nots = st.facts.get(('isnot', canon(v)), frozenset())
        for val, b in targets:
            if ('int', val) in nots:
                continue
            s2 = st.copy()
            s2.facts[('is', canon(v))] = ('int', val)
            s2.facts[('b', canon(('eq', v, ('int', val))))] = True
            res.append((s2, b))
        s2 = st.copy()
        s2.facts[('isnot', canon(v))] = nots | frozenset(('int', val) for val, _ in targets)
        res.append((s2, otherwise))
        return res

    # ------------------------------------------------------------------ calls
    def call_value(self, st, fv, args, site, dty):
        """Call a function value with unpacked args."""
        fv0 = fv
        fv = self.deref_all(st, fv)
        if fv[0] == 'closure':
            b = self.p.bodies.get(fv[1])
            if b is None:
                raise AnalysisError('closure body missing: %r' % (fv[1],))
            # self argument: by value, & or &mut according to the closure's body
            t = self.p.types[b['locals'][1]]
            if t['k'] == 'ref':
                if fv0[0] == 'ref' and self.load(st, fv0[1], fv0[2])[0] == 'closure':
                    selfv = fv0
                else:
                    o = ('C', st.fresh())
                    st.objs[o] = fv
                    selfv = ('ref', o, (), t['mut'])
            else:
                selfv = fv
            r = self.run_body(st, b, [selfv] + list(args))
            if r is None:
                return [(st, ('ret', ('rec', fv[1], self.snap(st, args))))]
            return r
        if fv[0] == 'fn':
            return self.call(st, fv[1].d, args, site, dty, None)
        # symbolic function
        sargs = self.snap(st, [fv0] + list(args))
        res = ('call', '<fn value>', sargs, st.fresh())
        st.emit(('call', '<fn value>', sargs, res, {'path': '<fn value>'}, site))
        self.havoc_args(st, args, '<fn value>')
        return [(st, ('ret', res))]

    def deref_all(self, st, v):
        n = 0
        while n < 20:
            n += 1
            if v[0] == 'ref':
                v = self.load(st, v[1], v[2])
            elif v[0] == 'adt' and v[1] == BOX:
                v = self.unbox(st, v)
            elif v[0] == 'deref':
                return v
            else:
                return v
        return v

    def call(self, st, c, args, site, dty, fr):
        path = c['path']
        for h in self.hooks:
            r = h(self, st, c, args, site, dty)
            if r is not None:
                return r
        m = models.get(path)
        if m is None and c.get('trait'):
            m = trait_models.get((c['trait'], c['method']))
        if m is not None:
            r = m(self, st, c, args, site, dty)
            if r is not None:
                return r
        if 'ctor' in c:
            return [(st, ('ret', ('adt', c['ctor'][0], c['ctor'][1], tuple(args))))]
        if is_panic(path):
            return [(st, ('panic', ('call', path, site, fr['body']['path'] if fr else '?', self.snap(st, args))))]
        if c.get('trait') in ('std::ops::FnOnce', 'std::ops::FnMut', 'std::ops::Fn') and c['method'] in ('call', 'call_once', 'call_mut'):
            tup = args[1]
            if tup[0] == 'adt':
                targs = list(tup[3])
            else:
                targs = [tup]
            return self.call_value(st, args[0], targs, site, dty)
        if 'inst' in c and not any(path == x or c.get('rpath') == x for x in self.opaque):
            b = self.p.bodies.get(c['inst'])
            if b is not None:
                r = self.run_body(st, b, args)
                if r is not None:
                    return r
                sargs = self.snap(st, args)
                res = ('rec', b['path'], sargs, st.fresh())
                st.emit(('call', 'rec:' + b['path'], sargs, res, c, site))
                self.havoc_args(st, args, 'rec:' + b['path'])
                return [(st, ('ret', res))]
        return self.opaque_call(st, c, args, site, dty)

    def opaque_call(self, st, c, args, site, dty):
        path = c['path']
        self.sites.add((path, site))
        sargs = self.snap(st, args)
        hav = self.mut_targets(st, args)
        silent = path.startswith(SILENT_CRATES)
        if hav or path in IMPURE or c.get('impure'):
            res = ('call', path, sargs, st.fresh())
        else:
            res = ('call', path, sargs, tuple(self.p.tys(t) for t in c.get('targs', ())) if path.endswith(('::parse', '::from_str', '::from_str_radix')) else None)
        if not silent:
            st.emit(('call', path, sargs, res, c, site))
            self.havoc(st, hav, path, sargs)
        if self.p.tys(dty) == '()':
            res = UNIT
        elif self.p.types[dty].get('path') == RES:
            self.rtypes[canon(res)] = dty
        n = path.split('::')[-1]
        if n in MEMBER and len(sargs) == 2 and path.startswith(KEYED_MAPS):
            b = member(st, canon(sargs[0]), canon(sargs[1]))
            if b is not None:
                if n in ('contains_key', 'contains'):
                    st.facts.setdefault(('b', canon(res)), b)
                elif self.p.types[dty].get('path') == OPT:
                    st.facts.setdefault(('var', canon(res)), int(b))
        return [(st, ('ret', res))]

    def snap(self, st, args):
        return tuple(self.snapv(st, a) for a in args)

    def snapv(self, st, v, d=0):
        if d > 40:
            return v
        if v[0] == 'ref':
            if v[1][0] == 'static':
                return ('&', ('static', v[1][1]))
            return ('&', self.snapv(st, self.load(st, v[1], v[2]), d + 1))
        if v[0] == 'adt':
            if v[1] == BOX:
                p = self.unbox(st, v)
                if p[0] == 'ref':
                    return ('box', self.snapv(st, self.load(st, p[1], p[2]), d + 1))
            return ('adt', v[1], v[2], tuple(self.snapv(st, x, d + 1) for x in v[3]))
        if v[0] == 'closure':
            return ('closure', v[1], tuple(self.snapv(st, x, d + 1) for x in v[2]))
        if v[0] == 'cast':
            return ('cast', v[1], v[2], self.snapv(st, v[3], d + 1))
        if v[0] == 'len':
            return ('len', self.snapv(st, v[1], d + 1))
        if v[0] == 'fut':
            return ('fut',) + tuple(self.snapv(st, x, d + 1) if isinstance(x, tuple) else x for x in v[1:])
        return v

    def mut_targets(self, st, args):
        out = []

        def go(v, d):
            if d > 12:
                return
            if v[0] == 'ref':
                if v[3]:
                    out.append((v[1], v[2]))
                else:
                    go(self.load(st, v[1], v[2]), d + 1)
            elif v[0] == 'adt':
                for x in v[3]:
                    go(x, d + 1)
            elif v[0] == 'closure':
                for x in v[2]:
                    go(x, d + 1)
        for a in args:
            if a[0] == 'adt' and a[1] == BOX:
                continue
            go(a, 0)
        return out

    def havoc(self, st, targets, path, sargs=()):
        for o, p in targets:
            old = self.load(st, o, p)
            sold = self.snapv(st, old)
            self.store(st, o, p, ('upd', path, st.fresh(), sold, tuple(a for a in sargs if peel(a) != peel(sold))))

    def havoc_args(self, st, args, path):
        self.havoc(st, self.mut_targets(st, args), path, self.snap(st, args))

    # ------------------------------------------------------------------ entry
    def run(self, body, args=None, state=None):
        st = state or State()
        if args is None:
            args = self.params(st, body)
        outs = self.run_body(st, body, args, keep=True)
        return [Path(s, o[0], o[1] if len(o) > 1 else None, o[2] if len(o) > 2 else None) for s, o in outs]

    def params(self, st, body, names=None):
        args = []
        for i in range(1, body['nargs'] + 1):
            nm = body['names'].get(str(i), 'arg%d' % i)
            args.append(('param', nm))
        return args


class Callee:
    """hashable wrapper of a callee description"""
    __slots__ = ('d', '_k')

    def __init__(self, d):
        self.d = d
        self._k = d.get('rfull') or d.get('full') or d['path']

    def __eq__(self, o): return isinstance(o, Callee) and o._k == self._k
    def __hash__(self): return hash(self._k)
    def __repr__(self): return self._k
    def __lt__(self, o): return self._k < o._k


def oname(o):
    return tuple(o)


def active_info(active, bb):
    return bb


def same_bits(a, b):
    return False


def wrap_int(n, ty):
    bits = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'u128': 128,
            'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'isize': 64, 'i128': 128}.get(ty)
    if not bits:
        return n
    n &= (1 << bits) - 1
    if ty[0] == 'i' and n >> (bits - 1):
        n -= 1 << bits
    return n


def is_panic(path):
    return path.startswith(('core::panicking::', 'std::rt::begin_panic', 'std::rt::panic', 'std::panicking::',
                            'std::option::unwrap_failed', 'std::option::expect_failed', 'std::result::unwrap_failed',
                            'core::slice::index::slice_', 'core::str::slice_error', 'std::process::abort',
                            'std::alloc::handle_alloc_error', 'alloc::raw_vec::'))


# ---------------------------------------------------------------------- terms
def peel(t):
    """strip references, derefs and boxes"""
    while True:
        if t[0] in ('&', 'deref', 'box'):
            t = t[1]
        else:
            return t


_canon = {}


def canon(t):
    """reference-insensitive form of a term (facts are about the values behind references)"""
    if not isinstance(t, tuple):
        return t
    r = _canon.get(t)
    if r is not None:
        return r
    if t and t[0] in ('&', 'deref', 'box'):
        r = canon(t[1])
    elif t and t[0] == 'ref':
        r = t
    else:
        r = tuple(canon(x) if isinstance(x, tuple) else x for x in t)
    if len(_canon) > 400000:
        _canon.clear()
    _canon[t] = r
    return r


MEMBER = ('get', 'get_mut', 'contains_key', 'contains', 'remove', 'get_key_value', 'remove_entry', 'take')
KEYED_MAPS = ('std::collections::HashMap', 'std::collections::BTreeMap', 'std::collections::HashSet', 'std::collections::BTreeSet',
              'std::collections::hash_map::HashMap', 'std::collections::btree_map::BTreeMap')
KEEPS = ('get_mut', 'iter_mut', 'values_mut', 'reserve', 'shrink_to_fit', 'range_mut', 'entry', 'insert')


def member(st, m, k):
    """whether the map m (canonical) holds the key k, as far as the path knows"""
    for x, v in st.facts.items():
        t = x[1]
        if x[0] in ('b', 'var') and isinstance(t, tuple) and t and t[0] == 'call' and len(t[2]) == 2 and t[2][0] == m and t[2][1] == k and t[1].startswith(KEYED_MAPS):
            n = t[1].split('::')[-1]
            if x[0] == 'b' and n in ('contains_key', 'contains') and isinstance(v, bool):
                return v
            if x[0] == 'var' and n in ('get', 'get_mut', 'get_key_value', 'remove', 'remove_entry'):
                return v == 1
    if m and m[0] == 'upd' and len(m) > 4 and isinstance(m[1], str) and m[1].startswith(KEYED_MAPS):
        n = m[1].split('::')[-1]
        if n == 'insert' and m[4] and m[4][0] == k:
            return True
        if n in ('remove', 'remove_entry') and m[4] and m[4][0] == k:
            return False
        if n == 'clear':
            return False
        if n in ('get_mut', 'iter_mut', 'values_mut', 'reserve', 'shrink_to_fit', 'range_mut'):
            return member(st, m[3], k)
        if n in KEEPS and member(st, m[3], k):
            return True
    return None


def root(t):
    """strip mutation history"""
    while True:
        if t[0] == 'upd':
            t = t[3]
        elif t[0] in ('&', 'deref', 'box'):
            t = t[1]
        elif t[0] == 'phi':
            t = t[3]
        else:
            return t


def stem(t):
    """canonical form in which mutation history (upd/phi) is erased everywhere"""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] in ('&', 'deref', 'box'):
        return stem(t[1])
    if t[0] == 'upd':
        return stem(t[3])
    if t[0] == 'phi':
        return stem(t[3])
    return tuple(stem(x) if isinstance(x, tuple) else x for x in t)


def subterms(t):
    """t and the terms below it, outermost first"""
    work = [t]
    pop, push = work.pop, work.append
    while work:
        t = pop()
        yield t
        if type(t) is tuple:
            for x in t[:0:-1]:
                if type(x) is tuple:
                    if x and type(x[0]) is str:
                        push(x)
                    else:
                        for z in x[::-1]:
                            if type(z) is tuple:
                                push(z)


def nodes(t, seen=None):
    """the terms below t, shared ones once"""
    if seen is None:
        seen = set()
    work = [t]
    pop, push = work.pop, work.append
    while work:
        t = pop()
        i = id(t)
        if i in seen:
            continue
        seen.add(i)
        yield t
        if type(t) is tuple:
            for x in t[:0:-1]:
                if type(x) is tuple:
                    if x and type(x[0]) is str:
                        push(x)
                    else:
                        for z in x[::-1]:
                            if type(z) is tuple:
                                push(z)


def contains(t, pred):
    return any(pred(x) for x in nodes(t))


CMP = {'Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'}


def mk_eq(a, b):
    for x, y in ((a, b), (b, a)):
        if y == ('int', 0) and x[0] == 'len' and (window(x[1]) or (0, 0, 0))[2] is None:
            return mk_not(mk_lt(y, x))
    a, b = peel(a), peel(b)
    if a == b:
        return TRUE
    if a[0] in ('int', 'str', 'bytes') and b[0] in ('int', 'str', 'bytes'):
        return TRUE if a[1] == b[1] else FALSE
    if repr(b) < repr(a):
        a, b = b, a
    return ('eq', a, b)


def mk_not(a):
    if a[0] == 'int':
        return TRUE if not a[1] else FALSE
    if a[0] == 'not':
        return a[1]
    return ('not', a)


def mk_lt(a, b):
    a, b = peel(a), peel(b)
    for x, y, less in ((a, b, True), (b, a, False)):
        # the length of what is left of a sequence after the first n elements
        w = window(x[1]) if x[0] == 'len' else None
        if w and w[2] is None and y[0] == 'int':
            n, m = ('len', peel(w[0])), plus(w[1], y)
            if less and y == ('int', 1):
                return mk_not(mk_lt(w[1], n))
            return mk_lt(n, m) if less else mk_lt(m, n)
    if a[0] == 'int' and b[0] == 'int':
        return TRUE if a[1] < b[1] else FALSE
    if a == b:
        return FALSE
    return ('lt', a, b)


def binop(op, a, b):
    if op == 'Eq':
        return mk_eq(a, b)
    if op == 'Ne':
        return mk_not(mk_eq(a, b))
    if op == 'Lt':
        return mk_lt(a, b)
    if op == 'Gt':
        return mk_lt(b, a)
    if op == 'Le':
        return mk_not(mk_lt(b, a))
    if op == 'Ge':
        return mk_not(mk_lt(a, b))
    if op.endswith('WithOverflow'):
        o = op[:-len('WithOverflow')]
        v = binop(o, a, b)
        f = FALSE if v[0] == 'int' and v[1] >= 0 else ('ovf', o, a, b)
        return ('adt', '()', 0, (v, f))
    if a[0] == 'int' and b[0] == 'int':
        x, y = a[1], b[1]
        if op in ('Add', 'AddUnchecked'):
            return ('int', x + y)
        if op in ('Sub', 'SubUnchecked'):
            return ('int', x - y)
        if op in ('Mul', 'MulUnchecked'):
            return ('int', x * y)
        if op == 'BitAnd':
            return ('int', x & y)
        if op == 'BitOr':
            return ('int', x | y)
        if op == 'BitXor':
            return ('int', x ^ y)
    if op == 'BitAnd':
        for x, y in ((a, b), (b, a)):
            if x == FALSE:
                return FALSE
    return ('bin', op.replace('Unchecked', ''), a, b)


def unop(op, a, I, st):
    if op == 'Not':
        if a[0] == 'int' and a[1] in (0, 1):
            return mk_not(a)
        return mk_not(a)
    if op == 'Neg' and a[0] == 'int':
        return ('int', -a[1])
    if op == 'PtrMetadata':
        if a[0] == 'ref':
            v = I.load(st, a[1], a[2])
        else:
            v = a
        v = I.deref_all(st, v)
        if v[0] == 'adt' and v[1] == '[]':
            return ('int', len(v[3]))
        return length(peel(I.snapv(st, v)))
    return ('un', op, a)


def window(v):
    """(sequence, first index, end or None) of a value that is a part `seq[a..b]` of a sequence"""
    if v[0] == 'deref':
        v = v[1]
    if v[0] == 'call' and v[1] == 'std::ops::Index::index' and v[2][1][0] == 'adt':
        x, r = v[2]
        kind = r[1].split('::')[-1]
        if kind == 'Range':
            a, b = r[3]
        elif kind == 'RangeFrom':
            a, b = r[3][0], None
        elif kind == 'RangeTo':
            a, b = ('int', 0), r[3][0]
        else:
            return None
        return ('deref', peel(x)), a, b
    return None


def plus(a, b):
    """a + b, constants gathered"""
    if b == ('int', 0):
        return a
    if b[0] == 'int' and a[0] == 'bin' and a[1] == 'Add' and a[3][0] == 'int':
        return plus(a[2], ('int', a[3][1] + b[1]))
    if a[0] == 'int' and b[0] != 'int':
        return plus(b, a)
    return binop('Add', a, b)


def part(x, a, b):
    """the part x[a..b] of a sequence (b None: to its end); a part of a part is a part of the whole"""
    w = window(peel(x))
    if w:
        x, a, b = w[0], plus(w[1], a), w[2] if b is None else plus(w[1], b)
    r = ('adt', 'std::ops::RangeFrom', 0, (a,)) if b is None else ('adt', 'std::ops::Range', 0, (a, b))
    return ('call', 'std::ops::Index::index', (x, r), None)


def length(v):
    """the number of elements of a sequence"""
    w = window(v)
    if w and w[2] is not None:
        d = distance(w[1], w[2])
        if d is not None and d >= 0:
            return ('int', d)
    return ('len', v)


def distance(a, b):
    """b - a when the two are constant offsets from the same value"""
    def split(t):
        if t[0] == 'int':
            return None, t[1]
        if t[0] == 'bin' and t[1] == 'Add' and t[3][0] == 'int':
            x, k = split(t[2])
            return x, k + t[3][1]
        return t, 0
    (x, m), (y, n) = split(a), split(b)
    return n - m if x == y else None


# ---------------------------------------------------------------------- models
models = {}
trait_models = {}


def model(*paths):
    def d(f):
        for p in paths:
            models[p] = f
        return f
    return d


def tmodel(trait, *methods):
    def d(f):
        for m in methods:
            trait_models[(trait, m)] = f
        return f
    return d


def ret(st, v):
    return [(st, ('ret', v))]


@model('trackable::Trackable::track')
@tmodel('trackable::Trackable', 'track')
def m_first(I, st, c, args, site, dty):
    return ret(st, args[0])


@model('std::hint::must_use', 'std::convert::identity')
def m_ident(I, st, c, args, site, dty):
    return ret(st, args[0])


@model('std::boxed::Box::<T>::new', 'alloc::boxed::Box::<T>::new')
def m_box_new(I, st, c, args, site, dty):
    o = ('H', st.fresh())
    st.objs[o] = args[0]
    return ret(st, ('adt', BOX, 0, (('adt', 'Unique', 0, (('adt', 'NonNull', 0, (('ref', o, (), True),)),)), UNIT)))


@model('std::mem::replace')
def m_replace(I, st, c, args, site, dty):
    r, v = args
    if r[0] != 'ref':
        r = ('ref', ('*', r), (), True)
    old = I.load(st, r[1], r[2])
    I.store(st, r[1], r[2], v)
    return ret(st, old)


@model('std::mem::swap')
def m_swap(I, st, c, args, site, dty):
    rs = [r if r[0] == 'ref' else ('ref', ('*', r), (), True) for r in args]
    a = I.load(st, rs[0][1], rs[0][2])
    b = I.load(st, rs[1][1], rs[1][2])
    I.store(st, rs[0][1], rs[0][2], b)
    I.store(st, rs[1][1], rs[1][2], a)
    return ret(st, UNIT)


@model('std::mem::drop', 'std::mem::forget')
def m_drop(I, st, c, args, site, dty):
    return ret(st, UNIT)


DEREF_IDENT = ('std::string::String', 'std::vec::Vec', 'std::sync::Arc', 'std::boxed::Box', 'std::rc::Rc',
               'std::sync::MutexGuard', 'std::borrow::Cow', 'std::cell::Ref')


@tmodel('std::ops::Deref', 'deref')
@tmodel('std::ops::DerefMut', 'deref_mut')
@tmodel('std::borrow::Borrow', 'borrow')
@tmodel('std::borrow::BorrowMut', 'borrow_mut')
def m_deref(I, st, c, args, site, dty):
    """smart pointers and owned/borrowed forms are views of the same value"""
    rp = c.get('rpath', '')
    if 'inst' in c and I.p.bodies.get(c['inst'], {}).get('local'):
        return None
    a = args[0]
    v = I.deref_all(st, a) if a[0] == 'ref' and I.load(st, a[1], a[2])[0] == 'adt' and I.load(st, a[1], a[2])[1] == BOX else None
    if v is not None:
        return ret(st, I.unbox(st, I.load(st, a[1], a[2])))
    return ret(st, a)


@tmodel('std::convert::AsRef', 'as_ref')
@tmodel('std::convert::AsMut', 'as_mut')
def m_asref(I, st, c, args, site, dty):
    if 'inst' in c and I.p.bodies.get(c['inst'], {}).get('local'):
        return None
    return ret(st, args[0])


@model('std::string::String::as_str', 'std::string::String::as_bytes', 'std::vec::Vec::<T, A>::as_slice',
       'core::str::<impl str>::as_bytes', 'std::string::String::into_bytes', 'std::borrow::Cow::<\'_, B>::into_owned',
       'std::string::String::as_mut_str', 'std::vec::Vec::<T, A>::into_boxed_slice', 'std::borrow::Cow::<\'_, B>::as_ref',
       'std::string::String::into_boxed_str', 'std::slice::<impl [T]>::to_vec', 'std::slice::<impl [T]>::into_vec')
def m_view(I, st, c, args, site, dty):
    return ret(st, args[0])


@tmodel('std::ops::Index', 'index')
@tmodel('std::ops::IndexMut', 'index_mut')
def m_index_full(I, st, c, args, site, dty):
    if len(args) > 1 and args[1][0] == 'adt' and args[1][1].endswith('RangeFull'):
        return ret(st, args[0])
    if c['method'] == 'index' and len(args) > 1 and args[1][0] == 'adt' and args[1][1].split('::')[-1] in ('Range', 'RangeFrom', 'RangeTo'):
        x, r = I.snap(st, args)
        if window(peel(x)) and I.p.tys(c['targs'][0])[:1] == '[':
            # a part of a part
            res = ('call', c['path'], (x, r), None)
            w = window(res)
            st.emit(('call', c['path'], (x, r), res, c, site))
            return ret(st, part(x, peel(w[1]), w[2] and peel(w[2])))
    return None


@tmodel('std::clone::Clone', 'clone')
@tmodel('std::borrow::ToOwned', 'to_owned')
def m_clone(I, st, c, args, site, dty):
    if 'inst' in c and I.p.bodies.get(c['inst'], {}).get('local'):
        # user-written or derived Clone of a local type: a copy
        b = I.p.bodies[c['inst']]
    a = args[0]
    if a[0] == 'ref':
        return ret(st, I.load(st, a[1], a[2]))
    return ret(st, ('deref', a) if a[0] not in ('str', 'bytes') else a)


@tmodel('std::string::ToString', 'to_string')
def m_to_string(I, st, c, args, site, dty):
    """text of a string is the string itself"""
    t = I.p.types[c['targs'][0]]
    while t['k'] == 'ref':
        t = I.p.types[t['args'][0]]
    if t['s'] in ('str', 'std::string::String') or t.get('path') == 'std::borrow::Cow':
        a = args[0]
        v = I.deref_all(st, a) if a[0] == 'ref' else a
        return ret(st, v)
    v = I.snapv(st, args[0])
    return ret(st, ('text', t['s'], peel(v)))


INTS = ('i8', 'i16', 'i32', 'i64', 'i128', 'isize', 'u8', 'u16', 'u32', 'u64', 'u128', 'usize')
STRINGY = ('str', 'std::string::String', 'std::boxed::Box<str>', '[u8]', 'std::vec::Vec<u8>')


def base_ty(I, i):
    t = I.p.types[i]
    while t['k'] == 'ref':
        t = I.p.types[t['args'][0]]
    return t


def stringy(t):
    return t['s'] in STRINGY or t.get('path') == 'std::borrow::Cow'


@model("core::fmt::rt::Argument::<'_>::new_display", "core::fmt::rt::Argument::<'_>::new_debug")
def m_fmtarg(I, st, c, args, site, dty):
    t = base_ty(I, [x for x in c['targs'] if I.p.types[x]['k'] != 'lifetime'][-1])
    return ret(st, ('fmtarg', 'display' if c['path'].endswith('display') else 'debug', t['s'], peel(I.snapv(st, args[0]))))


@model('std::fmt::format', 'alloc::fmt::format')
def m_format(I, st, c, args, site, dty):
    a = I.snapv(st, args[0])
    if a[0] == 'call' and a[1].endswith('::new') and len(a[2]) == 2:
        tmpl, arr = peel(a[2][0]), peel(a[2][1])
        if tmpl[0] == 'adt' and tmpl[3] == (('int', 192), ('int', 0)) and arr[0] == 'adt' and len(arr[3]) == 1 and arr[3][0][0] == 'fmtarg':
            _, how, ty, v = arr[3][0]
            if how == 'display' or ty in INTS or ty == 'bool':
                return ret(st, v if ty in STRINGY or ty.startswith('std::borrow::Cow') else ('text', ty, v))
    return ret(st, ('call', 'std::fmt::format', (a,), None))


@tmodel('std::convert::From', 'from')
def m_from(I, st, c, args, site, dty):
    if 'inst' in c and I.p.bodies.get(c['inst'], {}).get('local'):
        return None
    if len(c.get('targs', ())) < 2:
        return None
    to, fr = base_ty(I, c['targs'][0]), base_ty(I, c['targs'][1])
    if to == fr or (stringy(to) and stringy(fr)):
        a = args[0]
        return ret(st, I.deref_all(st, a) if a[0] == 'ref' and I.p.types[c['targs'][0]]['k'] != 'ref' else a)
    if to['s'] in INTS + ('f32', 'f64') and fr['s'] in INTS + ('f32', 'f64', 'bool', 'char'):
        return ret(st, ('cast', fr['s'], to['s'], args[0]))
    return None


@tmodel('std::cmp::PartialEq', 'eq', 'ne')
def m_eq(I, st, c, args, site, dty):
    if 'inst' in c and I.p.bodies.get(c['inst'], {}).get('local'):
        b = I.p.bodies[c['inst']]
        if not is_plain_enum(I, b):
            return None
    a = peel(I.snapv(st, I.deref_all(st, args[0])))
    b = peel(I.snapv(st, I.deref_all(st, args[1])))
    while a[0] == 'adt' and b[0] == 'adt' and a[1] == b[1] and a[1] in ('std::option::Option', 'std::result::Result'):
        if a[2] != b[2]:
            a, b = ('int', 0), ('int', 1)
        elif not a[3]:
            a = b
            break
        else:
            a, b = peel(I.snapv(st, I.deref_all(st, a[3][0]))), peel(I.snapv(st, I.deref_all(st, b[3][0])))
    k = I.known_eq(st, a, b)
    if k is not None:
        v = TRUE if k else FALSE
    else:
        v = mk_eq(a, b)
    if c['method'] == 'ne':
        v = mk_not(v)
    return ret(st, v)


def is_plain_enum(I, b):
    t = I.p.types[b['self_ty']] if 'self_ty' in b else None
    if not t or t['k'] != 'adt':
        return False
    a = I.p.adts.get(t['path'])
    return bool(a and a['kind'] == 'enum' and all(not v['fields'] for v in a['variants']))


@tmodel('std::cmp::PartialOrd', 'lt', 'le', 'gt', 'ge')
def m_ord(I, st, c, args, site, dty):
    a = peel(I.snapv(st, args[0]))
    b = peel(I.snapv(st, args[1]))
    m = c['method']
    v = {'lt': lambda: mk_lt(a, b), 'gt': lambda: mk_lt(b, a),
         'le': lambda: mk_not(mk_lt(b, a)), 'ge': lambda: mk_not(mk_lt(a, b))}[m]()
    return ret(st, v)


@model('slog::__slog_static_max_level')
def m_slog_max(I, st, c, args, site, dty):
    return ret(st, ('int', 0))


@model('slog::FilterLevel::as_usize')
def m_slog_f(I, st, c, args, site, dty):
    return ret(st, ('int', 1))      # every log statement is analysed as enabled


@model('slog::Level::as_usize')
def m_slog_l(I, st, c, args, site, dty):
    return ret(st, ('int', 1))


@model('core::slice::<impl [T]>::len', 'core::str::<impl str>::len', 'std::vec::Vec::<T, A>::len', 'std::string::String::len')
def m_len(I, st, c, args, site, dty):
    v = I.deref_all(st, args[0])
    if v[0] == 'adt' and v[1] == '[]':
        return ret(st, ('int', len(v[3])))
    if v[0] == 'str':
        return ret(st, ('int', len(v[1].encode())))
    return ret(st, length(peel(I.snapv(st, v))))


@model('core::slice::<impl [T]>::get', 'core::slice::<impl [T]>::first')
def m_slice_get(I, st, c, args, site, dty):
    if c['path'].endswith('first'):
        ix = ('int', 0)
    elif len(c.get('targs', ())) < 2 or I.p.types[c['targs'][1]]['s'] != 'usize':
        return None
    else:
        ix = peel(I.snapv(st, args[1]))
    v = I.deref_all(st, args[0])
    if v[0] == 'adt' and v[1] == '[]':
        n = ('int', len(v[3]))
    else:
        n = length(peel(I.snapv(st, v)))
    cond = mk_lt(ix, n)
    a = args[0]
    while a[0] == 'ref':
        inner = I.load(st, a[1], a[2])
        if inner[0] != 'ref':
            break
        a = inner
    el = ('ref', a[1], a[2] + (('i', ix),), False) if a[0] == 'ref' else ('ref', ('*', a), (('i', ix),), False)
    out = []
    for b in (True, False):
        s2 = st.copy()
        if I.assume(s2, cond, b):
            out.append((s2, ('ret', some(el) if b else NONE)))
    return out


@model('core::slice::<impl [T]>::split_first')
def m_split_first(I, st, c, args, site, dty):
    x = I.snapv(st, args[0])
    v = peel(x)
    if v[0] == 'adt':
        return None
    el = ('ref', ('*', part(x, ('int', 0), None)), (('i', ('int', 0)),), False)
    out = []
    for b in (True, False):
        s2 = st.copy()
        if I.assume(s2, mk_lt(('int', 0), length(v)), b):
            out.append((s2, ('ret', some(('adt', '()', 0, (el, part(x, ('int', 1), None)))) if b else NONE)))
    return out


@model('core::slice::<impl [T]>::split_at')
def m_split_at(I, st, c, args, site, dty):
    x, n = I.snap(st, args)
    if peel(x)[0] == 'adt':
        return None
    st.emit(('call', c['path'], (x, n), ('call', c['path'], (x, n), None), c, site))
    return ret(st, ('adt', '()', 0, (part(x, ('int', 0), peel(n)), part(x, peel(n), None))))


@model('core::slice::<impl [T]>::is_empty', 'core::str::<impl str>::is_empty', 'std::vec::Vec::<T, A>::is_empty', 'std::string::String::is_empty')
def m_is_empty(I, st, c, args, site, dty):
    (s2, o), = m_len(I, st, c, args, site, dty)
    v = mk_eq(o[1], ('int', 0))
    k = I.known_bool(st, v)
    return ret(st, v if k is None else (TRUE if k else FALSE))


# ---- futures 0.1
@tmodel('futures::Future', 'and_then', 'map', 'map_err', 'then', 'or_else', 'from_err', 'boxed', 'fuse')
def m_fut(I, st, c, args, site, dty):
    m = c['method']
    if m in ('boxed', 'fuse'):
        return ret(st, args[0])
    return ret(st, ('fut', m) + tuple(args) + ((c_from_err(I, dty),) if m == 'from_err' else ()))


def c_from_err(I, dty):
    return ('const', I.p.tys(dty))


@model('futures::future::result', 'futures::future::done', 'futures::done')
def m_done(I, st, c, args, site, dty):
    return ret(st, ('fut', 'done', args[0]))


@model('futures::future::ok', 'futures::finished', 'futures::future::finished')
def m_ok(I, st, c, args, site, dty):
    return ret(st, ('fut', 'done', ok(args[0])))


@model('futures::future::err', 'futures::failed', 'futures::future::failed')
def m_err(I, st, c, args, site, dty):
    return ret(st, ('fut', 'done', err(args[0])))


@model('futures::future::lazy', 'futures::lazy')
def m_lazy(I, st, c, args, site, dty):
    return ret(st, ('fut', 'lazy', args[0]))


def resolve_future(I, st, f, d=0):
    """-> [(state, ('ok', v) | ('err', v) | (other outcome))]"""
    if d > 40:
        raise AnalysisError('future nesting')
    if f[0] == 'ref':
        return resolve_future(I, st, I.load(st, f[1], f[2]), d + 1)
    if f[0] == 'adt' and f[1] == BOX:
        p = I.unbox(st, f)
        if p[0] == 'ref':
            return resolve_future(I, st, I.load(st, p[1], p[2]), d + 1)
        return resolve_future(I, st, ('deref', p), d + 1)
    if f[0] == 'adt' and f[1] == RES:
        return [(st, ('ok' if f[2] == 0 else 'err', f[3][0]))]
    if f[0] == 'fut':
        k = f[1]
        if k == 'done':
            return split_result(I, st, f[2])
        if k == 'lazy':
            out = []
            for s, o in I.call_value(st, f[2], [], '', 0):
                if o[0] == 'ret':
                    out += resolve_intofuture(I, s, o[1], d)
                else:
                    out.append((s, o))
            return out
        out = []
        for s, o in resolve_future(I, st, f[2], d + 1):
            if o[0] not in ('ok', 'err'):
                out.append((s, o))
                continue
            if (k in ('and_then', 'map') and o[0] == 'err') or (k in ('map_err', 'or_else') and o[0] == 'ok'):
                out.append((s, o))
                continue
            if k == 'from_err':
                out.append((s, o if o[0] == 'ok' else ('err', ('conv', o[1]))))
                continue
            a = o[1]
            if k == 'then':
                a = ok(a) if o[0] == 'ok' else err(a)
            for s2, r in I.call_value(s, f[3], [a], '', 0):
                if r[0] != 'ret':
                    out.append((s2, r))
                elif k == 'map':
                    out.append((s2, ('ok', r[1])))
                elif k == 'map_err':
                    out.append((s2, ('err', r[1])))
                else:
                    out += resolve_intofuture(I, s2, r[1], d)
        return out
    if f[0] == 'adt' and f[1].split('::')[-1] == 'Either' and f[1].startswith('futures') and f[3]:
        return resolve_future(I, st, f[3][0], d + 1)
    if f[0] == 'adt' and f[1] == PHASE:
        out = []
        for s, o in resolve_future(I, st, f[3][0], d + 1):
            if o[0] in ('ok', 'err'):
                out.append((s, (o[0], ('adt', PHASE, f[2], (o[1],)))))
            else:
                out.append((s, o))
        return out
    if f[0] == 'adt':
        b = local_future_impl(I, f[1])
        if b is not None:
            ob = ('F', st.fresh())
            st.objs[ob] = f
            return drive(I, st, b, ob)
    out = []
    sf = I.snapv(st, f)
    s1, s2 = st, st.copy()
    for s, k in ((s1, 'ok'), (s2, 'err')):
        v = ('await', k, sf)
        s.emit(('await', sf, k, v))
        out.append((s, (k, v)))
    return out


def drive(I, st, b, ob, n=0):
    """poll a local future to completion"""
    out = []
    start = st.objs[ob]
    for s, o in I.run_body(st, b, [('ref', ob, (), True)], keep=False) or []:
        if o[0] != 'ret':
            out.append((s, o))
            continue
        for s2, r in split_result(I, s, o[1]):
            if r[0] == 'err':
                out.append((s2, r))
                continue
            v = r[1]
            if v[0] == 'adt' and v[1] == ASYNC:
                if v[2] == 0:
                    out.append((s2, ('ok', v[3][0])))
                else:
                    out.append((s2, ('pending', ob)))
            else:
                for s3, vi in fork_variant(I, s2, v, ASYNC):
                    if vi == 0:
                        out.append((s3, ('ok', ('field', v, 'Ready', '0'))))
                    else:
                        out.append((s3, ('pending', ob)))
    return out


def fork_variant(I, st, v, path):
    """-> [(state, variant index)] for a value of enum type `path`"""
    if v[0] == 'adt':
        return [(st, v[2])]
    f = st.facts.get(('var', canon(v)))
    if f is not None:
        return [(st, f)]
    nots = st.facts.get(('notvar', canon(v)), frozenset())
    out = []
    for i in range(len(I.p.adts[path]['variants'])):
        if i in nots:
            continue
        s = st.copy()
        s.facts[('var', canon(v))] = i
        out.append((s, i))
    return out


def split_result(I, st, v):
    if v[0] == 'adt' and v[1] == RES:
        return [(st, ('ok' if v[2] == 0 else 'err', v[3][0]))]
    out = []
    for s, i in fork_variant(I, st, v, RES):
        out.append((s, ('ok', ('field', v, 'Ok', '0')) if i == 0 else ('err', ('field', v, 'Err', '0'))))
    return out


def resolve_intofuture(I, st, v, d):
    if v[0] == 'adt' and v[1] == RES:
        return split_result(I, st, v)
    if v[0] == 'call' and False:
        return []
    return resolve_future(I, st, v, d + 1)


def local_future_impl(I, path):
    if I.fut_impls is None:
        I.fut_impls = {}
        for k in I.p.roots:
            b = I.p.bodies[k]
            if b.get('trait') == 'futures::Future' and b.get('name') == 'poll':
                t = I.p.types[b['self_ty']]
                if t['k'] == 'adt':
                    I.fut_impls[t['path']] = b
    return I.fut_impls.get(path)


@tmodel('futures::Future', 'poll')
def m_poll(I, st, c, args, site, dty):
    """poll: NotReady | Ready(v) | Err(e); the future behind the reference is resolved symbolically"""
    if 'inst' in c and I.p.bodies.get(c['inst'], {}).get('local'):
        return None
    a = args[0]
    if a[0] != 'ref':
        a = ('ref', ('*', a), (), True)
    f = I.load(st, a[1], a[2])
    sp = st.copy()
    sp.emit(('pending', I.snapv(sp, f), site, a[1], sp.objs.get(a[1])))
    out = [(sp, ('ret', ok(adt(ASYNC, 1))))]
    if f[0] == 'adt' and f[1] == PHASE or f[0] in ('fut',) or (f[0] == 'adt' and (f[1] == BOX or local_future_impl(I, f[1]))):
        rs = resolve_future(I, st, f)
    elif self_phase(I, c):
        rs = []
        for s, vi in fork_variant(I, st, f, PHASE):
            vn = I.p.variant_name(PHASE, vi)
            for s2, o in resolve_future(I, s, ('field', f, vn, '0')):
                rs.append((s2, (o[0], ('adt', PHASE, vi, (o[1],))) if o[0] in ('ok', 'err') else o))
    else:
        rs = resolve_future(I, st, f)
    for s, o in rs:
        if o[0] == 'ok':
            I.store(s, a[1], a[2], ('upd', 'polled', s.fresh(), I.snapv(s, f)))
            out.append((s, ('ret', ok(adt(ASYNC, 0, o[1])))))
        elif o[0] == 'err':
            I.store(s, a[1], a[2], ('upd', 'polled', s.fresh(), I.snapv(s, f)))
            out.append((s, ('ret', err(o[1]))))
        elif o[0] == 'pending':
            # an inner future parked: its progress is kept inside this future
            s.emit(('pending', I.snapv(s, f), site, a[1], s.objs.get(a[1])))
            out.append((s, ('ret', ok(adt(ASYNC, 1)))))
        else:
            out.append((s, o))
    return out


@model('futures::Async::<T>::map')
def m_async_map(I, st, c, args, site, dty):
    out = []
    for s, i in fork_variant(I, st, args[0], ASYNC):
        if I.p.variant_name(ASYNC, i) != 'Ready':
            out.append((s, ('ret', ('adt', ASYNC, i, ()))))
            continue
        for s2, o in I.call_value(s, args[1], [args[0][3][0] if args[0][0] == 'adt' else ('field', args[0], 'Ready', '0')], site, dty):
            out.append((s2, ('ret', adt(ASYNC, i, o[1])) if o[0] == 'ret' else o))
    return out


@model('futures::Async::<T>::is_ready', 'futures::Async::<T>::is_not_ready')
def m_async_is(I, st, c, args, site, dty):
    want = 'Ready' if c['path'].endswith('::is_ready') else 'NotReady'
    v = I.deref_all(st, args[0])
    return [(s, ('ret', TRUE if I.p.variant_name(ASYNC, i) == want else FALSE)) for s, i in fork_variant(I, st, v, ASYNC)]


def self_phase(I, c):
    t = c.get('targs') or ()
    return bool(t) and I.p.types[t[0]].get('path') == PHASE


# ---- iterators: consumers are expressed through `next`
@tmodel('std::iter::Iterator', 'nth')
def m_nth(I, st, c, args, site, dty):
    if args[1] == ('int', 0):
        return iter_next(I, st, args[0], c, site, dty)
    return I.opaque_call(st, dict(c), args, site, dty)


ADAPTERS = {
    'map': 'std::iter::Map', 'filter': 'std::iter::Filter', 'cloned': 'std::iter::Cloned', 'copied': 'std::iter::Copied',
    'filter_map': 'std::iter::FilterMap', 'enumerate': 'std::iter::Enumerate', 'rev': 'std::iter::Rev',
    'skip': 'std::iter::Skip', 'take': 'std::iter::Take', 'zip': 'std::iter::Zip', 'chain': 'std::iter::Chain',
    'take_while': 'std::iter::TakeWhile', 'skip_while': 'std::iter::SkipWhile', 'map_while': 'std::iter::MapWhile',
    'inspect': 'std::iter::Inspect', 'step_by': 'std::iter::StepBy', 'by_ref': None, 'fuse': 'std::iter::Fuse',
}


@tmodel('std::iter::Iterator', *[k for k in ADAPTERS])
def m_adapter(I, st, c, args, site, dty):
    m = c['method']
    if m in ('by_ref', 'fuse'):
        return ret(st, args[0])
    if m == 'skip' and args[0][0] == 'iterof':
        return ret(st, ('iterof', tail_of(args[0][1], args[1])))
    return ret(st, ('adt', 'iter:' + m, 0, tuple(args)))


def tail_of(x, n):
    """the elements of x from the n-th on"""
    return part(x, n, None)


@tmodel('std::iter::IntoIterator', 'into_iter')
def m_into_iter(I, st, c, args, site, dty):
    rp = c.get('rpath', '')
    a = args[0]
    if rp == '<I as std::iter::IntoIterator>::into_iter':
        return ret(st, a)
    if 'inst' in c and I.p.bodies.get(c['inst'], {}).get('local'):
        return None
    v = I.deref_all(st, a) if a[0] == 'ref' else a
    if a[0] != 'ref':
        # a list of everything that an iterator yields, used up in its order
        w = peel(I.snapv(st, v))
        if w[0] == 'call' and w[1] == 'std::iter::Iterator::collect' and I.p.types[c['targs'][0]].get('path') in ('std::vec::Vec', 'std::collections::VecDeque') and not contains(w, lambda x: x[0] == 'closure'):
            return ret(st, w[2][0])
    return ret(st, ('iterof', peel(I.snapv(st, v))))


@model('core::slice::<impl [T]>::iter')
def m_slice_iter(I, st, c, args, site, dty):
    v = I.deref_all(st, args[0])
    return ret(st, ('iterof', peel(I.snapv(st, v))))


@tmodel('std::iter::Iterator', 'next')
def m_next(I, st, c, args, site, dty):
    if 'inst' in c and I.p.bodies.get(c['inst'], {}).get('local'):
        return None
    return iter_next(I, st, args[0], c, site, dty)


def iter_next(I, st, r, c, site, dty):
    """r: reference to the iterator object"""
    if r[0] != 'ref':
        r = ('ref', ('*', r), (), True)
    v = I.load(st, r[1], r[2])
    if v[0] == 'ref':
        return iter_next(I, st, v, c, site, dty)
    if v[0] == 'adt' and v[1].startswith('iter:'):
        k = v[1][5:]
        inner = ('ref', r[1], r[2] + (('f', None, 0, None),), True)
        res = []
        for s, o in iter_next(I, st, inner, c, site, dty):
            if o[0] != 'ret':
                res.append((s, o))
                continue
            for s2, x in split_option(I, s, o[1]):
                if x is None:
                    res.append((s2, ('ret', NONE)))
                    continue
                if k == 'map':
                    f = ('ref', r[1], r[2] + (('f', None, 1, None),), True)
                    for s3, y in I.call_value(s2, f, [x], site, dty):
                        res.append((s3, ('ret', some(y[1])) if y[0] == 'ret' else y))
                elif k in ('cloned', 'copied'):
                    if x[0] == 'ref':
                        res.append((s2, ('ret', some(I.load(s2, x[1], x[2])))))
                    else:
                        res.append((s2, ('ret', some(('deref', x)))))
                elif k == 'inspect':
                    res.append((s2, ('ret', some(x))))
                elif k in ('filter', 'filter_map', 'take_while', 'map_while'):
                    f = ('ref', r[1], r[2] + (('f', None, 1, None),), True)
                    if k in ('filter', 'take_while'):
                        o2 = ('T', s2.fresh())
                        s2.objs[o2] = x
                        a = ('ref', o2, (), False)
                    else:
                        a = x
                    for s3, y in I.call_value(s2, f, [a], site, dty):
                        if y[0] != 'ret':
                            res.append((s3, y))
                            continue
                        if k in ('filter', 'take_while'):
                            b = I.known_bool(s3, y[1])
                            for want in (True, False):
                                if b is not None and b != want:
                                    continue
                                s4 = s3.copy()
                                if not I.assume(s4, y[1], want):
                                    continue
                                if want:
                                    res.append((s4, ('ret', some(x))))
                                elif k == 'take_while':
                                    res.append((s4, ('ret', NONE)))
                                else:
                                    # skipped elements: the iterator advances
                                    s4.emit(('skip', I.snapv(s4, x), site))
                                    res.append((s4, ('loopback', ('iter:filter', site), None)))
                        else:
                            for s4, z in split_option(I, s3, y[1]):
                                if z is not None:
                                    res.append((s4, ('ret', some(z))))
                                elif k == 'map_while':
                                    res.append((s4, ('ret', NONE)))
                                else:
                                    s4.emit(('skip', I.snapv(s4, x), site))
                                    res.append((s4, ('loopback', ('iter:filter_map', site), None)))
                elif k == 'enumerate':
                    res.append((s2, ('ret', some(adt('()', 0, ('enumidx', I.snapv(s2, x)), x)))))
                else:
                    res.append((s2, ('ret', some(('iterelem', k, I.snapv(s2, x))))))
        return res
    if v[0] != 'adt' and c.get('targs') and peeled_path(I.p, c['targs'][0]) == 'std::iter::Peekable':
        v = adt('std::iter::Peekable', 0, ('field', v, None, 'iter'), ('field', v, None, 'peeked'))
        I.store(st, r[1], r[2], v)
    if v[0] == 'adt' and v[1] == 'std::iter::Peekable':
        # a buffered element, if any, is handed out first
        pk = v[3][1]
        out = []
        for s, x in split_option(I, st, pk):
            if x is not None:
                I.store(s, r[1], r[2], ('adt', v[1], 0, (v[3][0], NONE)))
                out.append((s, ('ret', x)))
            else:
                out += iter_next(I, s, ('ref', r[1], r[2] + (('f', None, 0, None),), True), dict(c, targs=()), site, dty)
        return out
    if v[0] == 'listed':
        if not v[1]:
            return ret(st, NONE)
        I.store(st, r[1], r[2], ('listed', v[1][1:], v[2]))
        x = v[1][0]
        if v[2]:
            o = ('T', st.fresh())
            st.objs[o] = x
            x = ('ref', o, (), False)
        return ret(st, some(x))
    # base iterator: opaque
    sv = I.snapv(st, v)
    cc = dict(c)
    res = ('next', root(sv), st.fresh())
    st.emit(('call', 'std::iter::Iterator::next', (('&', sv),), res, c, site))
    I.store(st, r[1], r[2], ('upd', 'next', st.fresh(), sv))
    return ret(st, res)


def peeled_path(P, i):
    t = P.types[i]
    while t['k'] in ('ref', 'ptr'):
        t = P.types[t['args'][0]]
    return t.get('path')


def split_option(I, st, v):
    """-> [(state, value | None)]"""
    if v[0] == 'adt' and v[1] == OPT:
        return [(st, v[3][0] if v[2] == 1 else None)]
    out = []
    for s, i in fork_variant(I, st, v, OPT):
        out.append((s, ('field', v, 'Some', '0') if i == 1 else None))
    return out


@tmodel('std::iter::Iterator', 'peekable')
def m_peekable(I, st, c, args, site, dty):
    return ret(st, adt('std::iter::Peekable', 0, args[0], NONE))


CONSUMERS = ('fold', 'for_each', 'try_fold', 'try_for_each', 'all', 'any', 'find', 'find_map', 'position', 'count', 'last', 'collect', 'sum')


@tmodel('std::iter::Iterator', *CONSUMERS)
def m_consume(I, st, c, args, site, dty):
    """internal iteration as an explicit widened loop over `next`"""
    m = c['method']
    if 'inst' in c and I.p.bodies.get(c['inst'], {}).get('local'):
        return None
    it = args[0]
    by_ref = it[0] == 'ref' or I.p.types[c['targs'][0]]['k'] == 'ref'
    if m in ('try_fold', 'try_for_each', 'all', 'any', 'find', 'find_map', 'position') and it[0] == 'ref':
        r = it
    elif it[0] == 'ref' and by_ref:
        r = it
    else:
        o = ('I', st.fresh())
        st.objs[o] = it
        r = ('ref', o, (), True)
    if m in ('collect', 'count', 'last', 'sum'):
        v = I.load(st, r[1], r[2])
        sv = I.snapv(st, v)
        st.emit(('call', 'std::iter::Iterator::' + m, (sv,), ('call', m, (sv,), None), c, site))
        return ret(st, ('call', 'std::iter::Iterator::' + m, (sv,), None))
    lid = ('iter:' + m, site, st.fresh())
    acc = args[1] if m in ('fold', 'try_fold') else UNIT
    f = args[2] if m in ('fold', 'try_fold') else args[1]
    accobj = ('A', st.fresh())
    st.objs[accobj] = acc
    fo = ('A', st.fresh())
    st.objs[fo] = f
    fr = ('ref', fo, (), True)

    def iteration(s):
        """-> (continues, exits)"""
        cont, ex = [], []
        for s1, o in iter_next(I, s, r, c, site, dty):
            if o[0] != 'ret':
                ex.append((s1, o))
                continue
            for s2, x in split_option(I, s1, o[1]):
                if x is None:
                    a = s2.objs[accobj]
                    ex.append((s2, ('ret', {'fold': a, 'for_each': UNIT, 'try_fold': ('tryout', a), 'try_for_each': ('tryout', UNIT),
                                            'all': TRUE, 'any': FALSE, 'find': NONE, 'find_map': NONE, 'position': NONE}[m])))
                    continue
                if m == 'find':
                    o2 = ('T', s2.fresh())
                    s2.objs[o2] = x
                    cargs = [('ref', o2, (), False)]
                elif m in ('fold', 'try_fold'):
                    cargs = [s2.objs[accobj], x]
                else:
                    cargs = [x]
                for s3, y in I.call_value(s2, fr, cargs, site, dty):
                    if y[0] != 'ret':
                        ex.append((s3, y))
                        continue
                    y = y[1]
                    if m == 'fold':
                        s3.objs[accobj] = y
                        cont.append(s3)
                    elif m == 'for_each':
                        cont.append(s3)
                    elif m in ('all', 'any', 'find', 'position'):
                        b = I.known_bool(s3, y)
                        for want in (True, False):
                            if b is not None and b != want:
                                continue
                            s4 = s3.copy()
                            if not I.assume(s4, y, want):
                                continue
                            stop = (want is False) if m == 'all' else want
                            if stop:
                                ex.append((s4, ('ret', {'all': FALSE, 'any': TRUE, 'find': some(x), 'position': some(('pos', lid))}[m])))
                            else:
                                cont.append(s4)
                    elif m == 'find_map':
                        for s4, z in split_option(I, s3, y):
                            if z is None:
                                cont.append(s4)
                            else:
                                ex.append((s4, ('ret', some(z))))
                    else:
                        t = I.p.types[dty]
                        path = t.get('path')
                        if path in (RES, OPT):
                            for s4, vi in fork_variant(I, s3, y, path):
                                good = (vi == 0) if path == RES else (vi == 1)
                                val = y[3][0] if y[0] == 'adt' and y[3] else ('field', y, 'Ok' if path == RES else 'Some', '0')
                                if good:
                                    s4.objs[accobj] = val
                                    cont.append(s4)
                                else:
                                    ex.append((s4, ('ret', y if y[0] == 'adt' else (NONE if path == OPT else err(('field', y, 'Err', '0'))))))
                        else:
                            cont.append(s3)
                            ex.append((s3.copy(), ('ret', y)))
        return cont, ex

    S = st
    v0 = I.load(st, r[1], r[2])
    v1 = listed(v0, 'slice::Iter<' in I.p.tys(c['targs'][0])) if c.get('targs') else v0
    if v1 != v0:
        # a short constant list: element by element
        I.store(st, r[1], r[2], v1)
        states, ex = [st], []
        while states:
            nxt = []
            for s in states:
                cont, e = iteration(s)
                nxt += cont
                ex += e
            states = nxt
        return consumed(I, dty, ex)
    for _ in range(12):
        I.dry += 1
        cont, _ex = iteration(S.copy())
        I.dry -= 1
        objs = dict(S.objs)
        diff = False
        for b in cont:
            for o, v in list(objs.items()):
                w = b.objs.get(o, v)
                if w != v:
                    g = I.gen(v, w, lid, oname(o))
                    if g != v:
                        objs[o] = g
                        diff = True
            for o, w in b.objs.items():
                if o not in objs and o[0] == '*' and w != ('deref', o[1]):
                    objs[o] = I.gen(('deref', o[1]), w, lid, oname(o))
                    diff = True
        n = max([S.n] + [b.n for b in cont])
        S = S.copy()
        S.objs, S.n = objs, n
        if not diff:
            break
    S.emit(('loop', lid[:2], site))
    cont, ex = iteration(S)
    out = consumed(I, dty, ex)
    for s in cont:
        out.append((s, ('loopback', lid[:2], None)))
    return out


def listed(v, by_ref):
    """the iterator with a short constant list below it spelled out"""
    if v[0] == 'adt' and v[1] in ('iter:map', 'iter:cloned', 'iter:copied', 'iter:inspect') and v[3]:
        return v[:3] + ((listed(v[3][0], by_ref),) + v[3][1:],)
    if v[0] == 'iterof' and v[1][0] == 'adt' and v[1][1] == '[]' and len(v[1][3]) <= 8:
        return ('listed', v[1][3], by_ref)
    return v


def consumed(I, dty, ex):
    t = I.p.types[dty]
    out = []
    for s, o in ex:
        if o[0] == 'ret' and o[1][0] == 'tryout':
            path = t.get('path')
            v = ok(o[1][1]) if path == RES else (some(o[1][1]) if path == OPT else o[1])
            o = ('ret', v)
        out.append((s, o))
    return out


# ---------------------------------------------------------------------- printing
def short(p):
    import re
    p = re.sub(r"::<[^<>]*>", '', p)
    parts = p.split('::')
    return '::'.join(parts[-2:]) if len(parts) > 1 else p


def show(t, d=0):
    if not isinstance(t, tuple) or not t:
        return repr(t)
    if d > 12:
        return '…'
    k = t[0]
    S = lambda x: show(x, d + 1)
    if k in ('int', 'str'):
        return repr(t[1])
    if k == 'param':
        return t[1]
    if k == '&':
        return '&' + S(t[1])
    if k == 'deref':
        return '*' + S(t[1])
    if k == 'box':
        return 'box ' + S(t[1])
    if k == 'field':
        return S(t[1]) + '.' + (t[2] + '#' if t[2] else '') + t[3]
    if k == 'adt':
        if t[1] == OPT:
            return 'Some(%s)' % S(t[3][0]) if t[2] else 'None'
        if t[1] == RES:
            return ('Err(%s)' if t[2] else 'Ok(%s)') % S(t[3][0])
        return '%s#%d(%s)' % (short(t[1]), t[2], ', '.join(S(x) for x in t[3]))
    if k == 'closure':
        return '|%s|(%s)' % (t[1].split('@')[0][-40:], ', '.join(S(x) for x in t[2]))
    if k == 'call':
        return '%s(%s)%s' % (short(t[1]), ', '.join(S(x) for x in t[2]), '' if t[3] is None or isinstance(t[3], tuple) else '@%s' % t[3])
    if k == 'upd':
        return '%s~%s' % (S(t[3]), t[2])
    if k == 'phi':
        return 'φ(%s)' % S(t[3])
    if k in ('eq', 'lt'):
        return '(%s %s %s)' % (S(t[1]), '==' if k == 'eq' else '<', S(t[2]))
    if k == 'not':
        return '!' + S(t[1])
    if k == 'bin':
        return '(%s %s %s)' % (S(t[2]), t[1], S(t[3]))
    if k == 'cast':
        return '(%s as %s)' % (S(t[3]), t[2])
    if k == 'text':
        return 'text<%s>(%s)' % (t[1], S(t[2]))
    if k == 'await':
        return 'await.%s(%s)' % (t[1], S(t[2]))
    if k == 'next':
        return 'next(%s)@%d' % (S(t[1]), t[2])
    if k == 'fut':
        return 'fut.%s(%s)' % (t[1], ', '.join(S(x) for x in t[2:]))
    if k == 'ref':
        return '&obj%s%s' % (t[1], t[2])
    return '%s(%s)' % (k, ', '.join(S(x) if isinstance(x, tuple) else str(x) for x in t[1:]))


def show_ev(e):
    if e[0] == 'call':
        return '%s(%s) -> %s   [%s]' % (short(e[1]), ', '.join(show(x) for x in e[2]), show(e[3])[:60], e[5])
    if e[0] == 'await':
        return 'AWAIT %s %s' % (e[2], show(e[1]))
    return repr(e)[:200]


def show_path(p):
    out = ['--- %s %s %s' % (p.kind, show(p.value) if isinstance(p.value, tuple) else p.value, p.info or '')]
    for k, v in p.state.facts.items():
        out.append('   ? %s %s = %s' % (k[0], show(k[1]), v if not isinstance(v, tuple) else show(v)))
    for e in p.events:
        out.append('   ' + show_ev(e))
    return '\n'.join(out)
