"""C19: what the unsafe code of the crate can do."""
from common import *
from rules import rule

LOOKUP = {'get', 'get_mut', 'contains', 'contains_key', 'remove', 'get_key_value', 'eq', 'ne', 'cmp', 'partial_cmp', 'lt', 'le', 'gt', 'ge',
          'hash', 'len', 'is_empty', 'to_string', 'starts_with', 'ends_with', 'fmt', 'index', 'range', 'binary_search', 'find', 'position', 'any', 'all',
          'parse', 'compare', 'equivalent', 'deref', 'borrow', 'as_ref', 'as_str', 'as_bytes', 'from_utf8', 'into_owned'}
VIEWS = {'deref', 'borrow', 'as_ref', 'as_str', 'as_bytes', 'index', 'from_utf8', 'find'}
STORE = {'insert', 'push', 'push_back', 'push_front', 'entry', 'or_insert', 'or_insert_with', 'extend', 'send', 'set', 'replace', 'store', 'append',
         'get_or_insert', 'get_or_insert_with', 'get_or_init', 'spawn', 'write', 'fill', 'swap', 'resize', 'put', 'try_send', 'spawn_boxed'}
LEAK = ('into_raw', 'leak', 'forget_raw', 'into_raw_non_null')


def has_ref(P, i, d=0, memo={}):
    """values of this type may hold references or raw pointers"""
    key = (id(P), i)
    if key in memo:
        return memo[key]
    memo[key] = False
    t = P.types[i]
    r = t['k'] in ('ref', 'ptr', 'dyn', 'dynamic', 'param', 'alias', 'closure', 'fnptr') or 'dyn ' in t['s'] or '&' in t['s']
    if not r:
        for a in t.get('args', ()):
            if isinstance(a, int) and has_ref(P, a, d + 1):
                r = True
    memo[key] = r
    return r


class Taint:
    """flow-insensitive tracking of references whose lifetime was extended by unsafe code"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.P = ctx.P
        self.memo = {}
        self.busy = set()

    # ---- pointers
    def origins(self, b):
        """local -> where its raw pointer comes from"""
        P = self.P
        org = {}
        for i in range(b['nargs']):
            t = P.types[b['locals'][i + 1]]
            if t['k'] == 'ptr':
                org[i + 1] = {'parameter'}

        def add(l, s):
            n = len(org.setdefault(l, set()))
            org[l] |= s
            return len(org[l]) != n
        ch = True
        while ch:
            ch = False
            for bl in b['blocks']:
                if bl['cleanup']:
                    continue
                for s in bl['s']:
                    if s[0] != '=':
                        continue
                    d, r = s[1], s[2]
                    if len(d) != 1:
                        continue
                    if r[0] == 'rawptr':
                        ch |= add(d[0], self.place_origin(b, org, r[1]))
                    elif r[0] in ('use', 'cast'):
                        op = r[1] if r[0] == 'use' else r[2]
                        if r[0] == 'cast' and r[1] == 'BoxDerefTransmute':
                            ch |= add(d[0], {'box'})
                        elif op[0] == 'k':
                            v = op[1].get('v') if isinstance(op[1], dict) else None
                            if isinstance(v, dict) and 'static' in v:
                                ch |= add(d[0], {'static mut' if v.get('mut') else 'static'})
                        elif op[0] in ('c', 'm'):
                            if len(op[1]) == 1:
                                if op[1][0] in org:
                                    ch |= add(d[0], org[op[1][0]])
                                elif r[0] == 'cast' and P.types[b['locals'][op[1][0]]]['k'] == 'ref' and P.types[b['locals'][d[0]]]['k'] == 'ptr':
                                    ch |= add(d[0], self.ref_origin(b, op[1][0]))
                            elif P.types[b['locals'][d[0]]]['k'] == 'ptr':
                                ch |= add(d[0], {'box'} if self.box_inner(b, op[1]) else {'stored pointer'})
                t = bl['t']
                if t[0] == 'call' and len(t[3]) == 1 and P.types[t[5]]['k'] == 'ptr':
                    n = t[1].get('path', '').split('::')[-1]
                    if n in LEAK:
                        ch |= add(t[3][0], {'leaked'})
                    elif n in ('cast', 'cast_mut', 'cast_const') and t[2] and t[2][0][0] in ('c', 'm') and t[2][0][1][0] in org:
                        ch |= add(t[3][0], org[t[2][0][1][0]])
                    else:
                        ch |= add(t[3][0], {'pointer from ' + n})
        return org

    def box_inner(self, b, pl):
        t = self.P.types[b['locals'][pl[0]]]
        return t.get('path', '').split('::')[-1] in ('Box', 'Unique', 'NonNull')

    def ref_origin(self, b, l):
        t = self.P.types[b['locals'][l]]
        return {'exclusive reference' if t.get('mut') else 'shared reference'}

    def place_origin(self, b, org, pl):
        if '*raw' in pl:
            return org.get(pl[0], {'stored pointer'})
        if '*' in pl:
            t = self.P.types[b['locals'][pl[0]]]
            if t['k'] == 'ref':
                return self.ref_origin(b, pl[0])
            return {'box'}
        return {'local variable'}

    # ---- references
    def run(self, key, params, site=''):
        """params: tainted parameters -> is the result tainted?"""
        b = self.P.bodies[key]
        k = (key, params)
        if k in self.memo:
            return self.memo[k]
        if k in self.busy:
            return False
        self.busy.add(k)
        r = self._run(b, params)
        self.busy.discard(k)
        self.memo[k] = r
        return r

    def _run(self, b, params):
        P, ctx = self.P, self.ctx
        ty = lambda l: b['locals'][l]
        org = self.origins(b) if b['local'] else {}
        t = {p: 'its argument' for p in params}
        name = b['path']

        def add(l, why):
            if l not in t and has_ref(P, ty(l)):
                t[l] = why
                return True
            return False

        def assign(d, why, sp):
            if '*' in d[1:] or '*raw' in d[1:]:
                # stored behind a pointer: kept by whatever the pointer refers to
                if b['local']:
                    ctx.ob(False, 'kept', name + '/store', 'a reference whose lifetime was extended is stored in %s' % place_text(b, d), sp)
                return False
            return add(d[0], why)
        ch = True
        while ch:
            ch = False
            for bl in b['blocks']:
                if bl['cleanup']:
                    continue
                for s in bl['s']:
                    if s[0] != '=':
                        continue
                    d, r, sp = s[1], s[2], s[3] if len(s) > 3 else ''
                    if r[0] == 'ref' and '*raw' in r[2] and b['local']:
                        o = org.get(r[2][0], {'stored pointer'})
                        bad = o - {'leaked', 'static', 'static mut', 'box'}
                        if bad:
                            ch |= assign(d, 'a reborrowed raw pointer (%s)' % ', '.join(sorted(bad)), sp)
                        continue
                    if r[0] in ('ref', 'rawptr'):
                        pl = r[2] if r[0] == 'ref' else r[1]
                        if pl[0] in t:
                            ch |= assign(d, t[pl[0]], sp)
                        continue
                    if r[0] == 'cast' and r[1] == 'Transmute' and b['local']:
                        op = r[2]
                        if op[0] in ('c', 'm') and has_ref(P, r[3]) and has_ref(P, ty(op[1][0])) and P.types[r[3]]['k'] != 'ptr':
                            ch |= assign(d, 'a transmuted reference', sp)
                        continue
                    for op in operands(r):
                        if op[0] in ('c', 'm') and op[1][0] in t:
                            ch |= assign(d, t[op[1][0]], sp)
                x = bl['t']
                if x[0] != 'call':
                    continue
                c, args, dst = x[1], x[2], x[3]
                n = c.get('path', '').split('::')[-1]
                if n in ('transmute', 'transmute_copy') and has_ref(P, x[5]) and args and args[0][0] in ('c', 'm') and b['local']:
                    ch |= assign(dst, 'a transmuted reference', bl['sp'])
                    continue
                ta = frozenset(i + 1 for i, a in enumerate(args) if a[0] in ('c', 'm') and a[1][0] in t)
                if not ta:
                    continue
                inst = c.get('inst')
                body = P.bodies.get(inst) if inst else None
                if body is not None and (body['local'] or inst in P.bodies):
                    pa = ta
                    if body['nargs'] != len(args):
                        pa = frozenset(range(1, body['nargs'] + 1))
                    if self.run(inst, pa):
                        ch |= assign(dst, 'the result of ' + n, bl['sp'])
                    continue
                # a closure run by library code
                for i in ta:
                    a = args[i - 1]
                    at = P.types[ty(a[1][0])]
                    ck = closure_key(P, at)
                    if ck:
                        if self.run(ck, frozenset([1])):
                            ch |= assign(dst, 'the result of a closure', bl['sp'])
                if n in STORE and b['local']:
                    ctx.ob(False, 'kept', name + '/' + n, 'a reference whose lifetime was extended is handed to %s, which keeps it' % short(c.get('path', '')), bl['sp'])
                    continue
                if n in LOOKUP and n not in VIEWS:
                    continue
                ch |= assign(dst, 'the result of ' + n, bl['sp'])
        return 0 in t


def closure_key(P, t):
    if t['k'] == 'closure':
        for k in (t.get('inst'), t.get('key')):
            if k in P.bodies:
                return k
        c = [k for k, b in P.bodies.items() if b['path'] == t.get('path')]
        return c[0] if c else None
    return None


def operands(r):
    k = r[0]
    if k == 'use':
        return [r[1]]
    if k == 'cast':
        return [r[2]]
    if k == 'agg':
        return list(r[2])
    out = []

    def go(x):
        if isinstance(x, list):
            if len(x) == 2 and x[0] in ('c', 'm') and isinstance(x[1], list):
                out.append(x)
            else:
                for y in x:
                    go(y)
    go(r)
    return out


def place_text(b, d):
    n = b['names'].get(str(d[0]), '_%d' % d[0])
    return n


# ------------------------------------------------------------------ static mut
def static_ops(x):
    """static mut items whose address is taken in a statement or terminator"""
    if isinstance(x, dict):
        if 'static' in x:
            if x.get('mut'):
                yield x['static']
        else:
            for y in x.values():
                yield from static_ops(y)
    elif isinstance(x, list):
        for y in x:
            yield from static_ops(y)


def any_static(x):
    if isinstance(x, dict):
        if 'static' in x:
            yield x['static']
        else:
            for y in x.values():
                yield from any_static(y)
    elif isinstance(x, list):
        for y in x:
            yield from any_static(y)


def accesses(b):
    """[(block, index, static, 'read'|'write', span)] of static mut items in a body"""
    ptr = {}
    for bl in b['blocks']:
        for s in bl['s']:
            if s[0] == '=' and len(s[1]) == 1:
                for st in static_ops(s[2]):
                    ptr[s[1][0]] = st
    ch = True
    while ch:
        ch = False
        for bl in b['blocks']:
            for s in bl['s']:
                if s[0] == '=' and len(s[1]) == 1 and s[1][0] not in ptr and s[2][0] in ('use', 'cast', 'rawptr'):
                    for pl in places(s[2]):
                        if pl[0] in ptr and (len(pl) == 1 or s[2][0] == 'rawptr') and not (s[2][0] == 'cast' and s[2][1] == 'Transmute'):
                            ptr[s[1][0]] = ptr[pl[0]]
                            ch = True
    out = []
    for i, bl in enumerate(b['blocks']):
        if bl['cleanup']:
            continue
        for j, s in enumerate(bl['s']):
            if s[0] != '=':
                continue
            if s[1][0] in ptr and '*raw' in s[1]:
                out.append((i, j, ptr[s[1][0]], 'write', s[3]))
            r = s[2]
            for pl in places(r):
                if pl[0] in ptr and '*raw' in pl:
                    w = r[0] == 'ref' and r[1] is True
                    out.append((i, j, ptr[pl[0]], 'write' if w else 'read', s[3]))
        t = bl['t']
        if t[0] == 'call':
            for a in t[2]:
                if a[0] in ('c', 'm') and a[1][0] in ptr and len(a[1]) == 1:
                    n = t[1].get('path', '').split('::')[-1]
                    out.append((i, len(bl['s']), ptr[a[1][0]], 'read' if n in ('read', 'as_ref') else 'write', bl['sp']))
        if t[0] == 'drop' and t[1][0] in ptr and '*raw' in t[1]:
            out.append((i, len(bl['s']), ptr[t[1][0]], 'write', bl['sp']))
    return out


def places(x):
    if isinstance(x, list):
        if x and isinstance(x[0], int) and all(isinstance(y, (str, list)) for y in x[1:]):
            yield x
        else:
            if len(x) >= 2 and x[0] == 'ref':
                yield x[2]
                return
            for y in x[1:] if x and isinstance(x[0], str) else x:
                yield from places(y)


class Statics:
    def __init__(self, ctx):
        self.ctx, self.P = ctx, ctx.P
        self.local = {k: b for k, b in self.P.bodies.items() if b['local']}
        self.acc = {k: accesses(b) for k, b in self.local.items()}
        self.once = {}          # body key -> [(block, once static, initialiser key)]
        self.callers = {}       # body key -> [(caller key, block)]
        self.inits = {}         # initialiser key -> {once static}
        self.used = {}          # closure key -> number of uses other than call_once
        for k, b in self.local.items():
            for i, bl in enumerate(b['blocks']):
                t = bl['t']
                if bl['cleanup'] or t[0] != 'call':
                    continue
                inst = t[1].get('inst')
                if inst in self.local:
                    self.callers.setdefault(inst, []).append((k, i))
                if t[1].get('path', '') in ('std::sync::Once::call_once', 'std::sync::Once::call_once_force'):
                    o = self.once_of(b, t[2][0])
                    f = self.fn_of(b, t[2][1])
                    self.once.setdefault(k, []).append((i, o, f))
                    if f:
                        self.inits.setdefault(f, set()).add(o)

    def once_of(self, b, op):
        """the static Once an operand refers to"""
        if op[0] == 'k':
            s = list(any_static(op))
            return s[0] if s else None
        l = op[1][0]
        seen = set()
        while l not in seen:
            seen.add(l)
            for bl in b['blocks']:
                for s in bl['s']:
                    if s[0] == '=' and s[1] == [l]:
                        st = list(any_static(s[2]))
                        if st:
                            return st[0]
                        for pl in places(s[2]):
                            l = pl[0]
        return None

    def fn_of(self, b, op):
        if op[0] == 'k':
            t = self.P.types[op[1]['ty']] if isinstance(op[1], dict) and 'ty' in op[1] else {}
        else:
            t = self.P.types[b['locals'][op[1][0]]]
        k = closure_key(self.P, t)
        if k:
            return k
        c = [k for k, x in self.local.items() if x['path'] == t.get('path')]
        return c[0] if c else None

    def reach(self, k, seen=None):
        """local bodies called from k"""
        seen = set() if seen is None else seen
        if k in seen:
            return seen
        seen.add(k)
        b = self.local.get(k)
        if b:
            for bl in b['blocks']:
                t = bl['t']
                if not bl['cleanup'] and t[0] == 'call' and t[1].get('inst') in self.local:
                    self.reach(t[1]['inst'], seen)
        return seen

    def guarded_writers(self):
        """body key -> Once statics under which alone it runs; absent if it can run otherwise"""
        g = {}
        for f, os in self.inits.items():
            g[f] = set(os)
        ch = True
        while ch:
            ch = False
            for k in self.local:
                if k in g or k not in self.callers:
                    continue
                if self.local[k].get('trait') or self.exported(k):
                    continue
                cs = {c for c, _ in self.callers[k]}
                if cs and all(c in g for c in cs):
                    g[k] = set().union(*[g[c] for c in cs])
                    ch = True
        return g

    def exported(self, k):
        p = self.local[k]['path']
        return any(x[2] == p for x in self.P.d['exports'] if x[3] == 'Fn') and not private_module(self.P, p)

    def initialised(self):
        """body key -> block -> statics known to be initialised at its start; summaries by iteration"""
        writes = {}
        for f in self.inits:
            w = set()
            for k in self.reach(f):
                w |= {a[2] for a in self.acc.get(k, ()) if a[3] == 'write'}
            writes[f] = w
        summ = {k: frozenset() for k in self.local}
        at = {}
        ch = True
        n = 0
        while ch and n < 20:
            ch = False
            n += 1
            for k, b in self.local.items():
                if not (k in self.once or self.acc[k] or any(bl['t'][0] == 'call' and bl['t'][1].get('inst') in self.local and summ[bl['t'][1]['inst']] for bl in b['blocks'] if not bl['cleanup'])):
                    continue
                state = {0: frozenset()}
                work = [0]
                out = None
                gen = {i: (o, f) for i, o, f in self.once.get(k, ())}
                while work:
                    i = work.pop()
                    cur = state[i]
                    t = b['blocks'][i]['t']
                    nxt = cur
                    if i in gen and gen[i][0] is not None and gen[i][1] is not None:
                        nxt = cur | writes.get(gen[i][1], set())
                    elif t[0] == 'call' and t[1].get('inst') in self.local:
                        nxt = cur | summ[t[1]['inst']]
                    for s in self.P.succs(b, i):
                        new = nxt if s not in state else state[s] & nxt
                        if s not in state or new != state[s]:
                            state[s] = frozenset(new)
                            work.append(s)
                rets = [state[i] for i, bl in enumerate(b['blocks']) if bl['t'][0] == 'ret' and i in state]
                r = frozenset.intersection(*rets) if rets else frozenset()
                at[k] = state
                if r != summ[k]:
                    summ[k] = r
                    ch = True
        return at


def private_module(P, path):
    mods = {(x[0], x[1]) for x in P.d['exports'] if x[3] == 'Mod'}
    parts = path.split('::')
    for i in range(len(parts) - 1):
        if ('::'.join(parts[:i]), parts[i]) not in mods:
            return True
    return False


@rule('C19', 'All unsafe constructs of the crate, on the type-checked MIR: no unsafe function of another crate is called; an unsafe impl of Send or Sync adds nothing the fields do not have themselves (decided by the trait solver); a reference obtained through a raw pointer or transmute from data the function merely borrows is tracked through assignments, calls, closures and results, and may end only in lookups, never in a container, a field, a channel, a task or a result given to a caller outside; no write and no exclusive reference is made through a raw pointer that came from a shared reference; each static mut is written only by code that runs solely inside call_once of one static Once, and every read is preceded on all paths by that call_once.',
      ['the compiler enforces Send, Sync and lifetimes in safe code', 'HashMap and BTreeMap lookups do not keep the key they are given'])
def c19(ctx):
    P = ctx.P
    local = {k: b for k, b in P.bodies.items() if b['local']}
    ctx.npaths += 0
    # 1. unsafe impls
    n = 0
    for im in P.impls:
        n += 1
        if im.get('unsafe') and not im.get('neg') and im.get('auto'):
            ctx.ob(not im['without'], 'unsafe-impl', im['str'], 'the impl claims %s although the field %s does not have it' % (im['trait'].split('::')[-1], ', '.join(im['without'])), im['span'])
    ctx.ob(n, 'scanned', 'impls', 'no impls were found')
    # 2. unsafe calls
    calls_ = 0
    T = Taint(ctx)
    for k, b in local.items():
        ctx.bodies.add(k)
        seen_org = None
        for bl in b['blocks']:
            if bl['cleanup']:
                continue
            t = bl['t']
            if t[0] == 'call':
                calls_ += 1
                c = t[1]
                ctx.sites.add((k, bl['sp']))
                if c.get('unsafe') and not c.get('path', '').startswith(('std::fmt::', 'core::fmt::')):
                    inst = c.get('inst')
                    nm = c.get('path', '')
                    if inst in local or nm.split('::')[-1] in ('transmute', 'transmute_copy'):
                        continue
                    ctx.ob(False, 'unsafe-call', '%s/%s' % (b['path'], nm.split('::')[-1]), 'calls the unsafe function %s' % short(nm), bl['sp'])
            # 3. writes through raw pointers
            for s in bl['s']:
                if s[0] != '=':
                    continue
                w = None
                if '*raw' in s[1]:
                    w = s[1]
                elif s[2][0] == 'ref' and s[2][1] is True and '*raw' in s[2][2]:
                    w = s[2][2]
                if w is None:
                    continue
                if seen_org is None:
                    seen_org = T.origins(b)
                o = seen_org.get(w[0], {'stored pointer'})
                bad = o - {'leaked', 'static mut', 'box', 'exclusive reference', 'local variable'}
                ctx.ob(not bad, 'raw-write', b['path'], 'writes through a raw pointer (%s)' % ', '.join(sorted(bad)), s[3])
    ctx.ob(calls_, 'scanned', 'calls', 'no calls were found')
    # 4. extended references
    S = Statics(ctx)
    for k, b in local.items():
        r = T.run(k, frozenset())
        if r and (k not in S.callers or S.exported(k) or b.get('trait')) and b['kind'] not in ('Closure',):
            ctx.ob(False, 'kept', b['path'] + '/result', 'returns a reference whose lifetime was extended', b['span'])
    ctx.ob(True, 'extended-references', '%d functions tracked' % len(local))
    # 5. static mut
    g = S.guarded_writers()
    at = S.initialised()
    byst = {}
    for k, acc in S.acc.items():
        b = local[k]
        for i, j, st, kind, sp in acc:
            inst = '%s in %s' % (st.split('::')[-1], b['path'])
            if kind == 'write':
                if ctx.ob(k in g and None not in g[k], 'one-time-init', inst, '%s is written outside one-time initialisation' % st, sp):
                    byst.setdefault(st, set()).update(g[k])
            else:
                done = st in at.get(k, {}).get(i, ())
                done = done or k in g
                if not done and not b.get('trait') and not S.exported(k) and k in S.callers:
                    done = all(st in at.get(c, {}).get(x, ()) for c, x in S.callers[k])
                ctx.ob(done, 'read-after-init', inst, '%s may be read before it was initialised, or while it is being initialised' % st, sp)
    for st, os in byst.items():
        ctx.ob(len(os) == 1, 'one-time-init', st + '/once', '%s is initialised under %d different Once' % (st, len(os)))
    nst = [it for it in P.items if it['kind'].startswith('Static') and it.get('mut')]
    for it in nst:
        ctx.ob(True, 'static-mut', it['path'])
    un = [it for it in P.items if it['kind'] == 'Union']
    for it in un:
        ctx.note('C19: union %s' % it['path'])
