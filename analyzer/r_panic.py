"""C18: no panic is reachable from what peers send or callers pass."""
from common import *
from rules import rule, RULES
from r_router import ident, last, ceq, variant_fact
import machine
from interp import window, plus, length as seq_length


class Collect(Ctx):
    """runs the other rules for the sake of the paths they explore"""
    def __init__(self, prog, tier):
        Ctx.__init__(self, prog, tier)
        self.runs = []

    def track(self, I, ps):
        Ctx.track(self, I, ps)
        self.runs.append((I, ps))


OTHERS = ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C16', 'C17', 'C21', 'C22', 'C23')
SERDE = ('serde::Serializer', 'serde::ser::', 'serde::Deserializer', 'serde::de::')


@rule('C18', 'Panic reachability. The abstract paths of all codec drivers, of the client calls, the connection and acceptor futures, the handler closures and the pool (every path explored for the other properties), and of every serde method not reached by these, run on unknown arguments: each path that ends in a panic (failed assertion of a checked operation, panic call, or a library function that panics, such as unwrap) is reported at the place in this crate, unless its condition is refuted: by the facts of the path, by intervals of the operands, or because the operand is constant, a 64-bit counter, or JSON of plain data. Calls of partial library functions (indexing, slicing, allocation sizes, time arithmetic) must have operands bounded in the same way.',
      ['library code outside this crate (miasht, url, serde, std) panics only where its documentation says so', 'counters of 64 bits that grow by small constants do not overflow', 'a NeverFail value can not be made', 'user code (Serialize, Deserialize, handlers) does not panic itself'])
def c18(ctx):
    P = ctx.P
    cc = Collect(P, ctx.tier)
    for r in OTHERS:
        if r not in RULES:
            continue
        try:
            RULES[r](cc)
        except Missing as e:
            ctx.ob(False, 'anchor', str(e), 'anchor not found: %s' % e)
        except AnalysisError as e:
            ctx.note('C18: %s: %s' % (r, e))
    runs = list(cc.runs)
    L = None
    try:
        from r_pool import layout, replies
        L = layout(cc)
        runs.append((L.I, [q for _, _, _, res, _ in replies(cc) for q, o in res]))
    except (Missing, AnalysisError) as e:
        ctx.note('C18: pool: %s' % e)
    # what the drivers did not reach
    D = Driver(P)
    seen = set(cc.bodies)
    for key in P.roots:
        b = P.bodies[key]
        if b['path'] in seen or '::_::' in b['path'] or not (b.get('trait') or '').startswith(SERDE):
            continue
        try:
            runs.append((D.I, paths(D.call(State(), b, [('param', 'a%d' % i) for i in range(b['nargs'])]))))
        except AnalysisError as e:
            ctx.note('C18: %s: %s' % (b['path'], e))
    done = set()
    npan = ncall = 0
    for I, ps in runs:
        if not ps:
            continue
        ctx.track(I, ps)
        for p in ps:
            if p.kind == 'panic':
                npan += 1
                k = panic_key(p)
                sig = (k, canon(p.value[4]) if isinstance(p.value[4], tuple) and p.value[4] and isinstance(p.value[4][0], str) else p.value[4])
                ok_ = refuted(ctx, I, p, L)
                ctx.ob(ok_, 'no-panic', k, '%s: %s' % (p.value[1], show_args(p)), p.value[2], p)
            for e in p.events:
                if e[0] != 'call':
                    continue
                n = last(e[3]) if e[3][0] == 'call' else e[1].split('::')[-1]
                if n not in PARTIAL and n not in SIZED:
                    continue
                sig = (e[1], e[5], e[2])
                if sig in done:
                    continue
                try:
                    bad = partial(ctx, I, p, e, n)
                except Infeasible:
                    bad = ''
                if bad is None:
                    done.add(sig)
                    continue
                ncall += 1
                if bad == '?':
                    ctx.note('C18: operands of %s at %s not recognised' % (n, e[5]))
                    continue
                ctx.ob(not bad, 'bounded-operands', '%s@%s' % (n, e[5].rsplit(':', 1)[0]), '%s: %s' % (e[1], bad), e[5], p)
    ctx.at_least(10, npan, 'paths that end in a refuted panic')
    ctx.ob(ncall, 'bounded-operands', 'any', 'no partial library call found')


def panic_key(p):
    v = p.value
    return '%s in %s' % (v[1].split(' ')[0], v[3])


def show_args(p):
    v = p.value[4]
    if not isinstance(v, tuple):
        return ''
    if v and isinstance(v[0], str):
        return show(v)[:100]
    return ', '.join(show(x)[:80] for x in v[:2])


# ------------------------------------------------------------------ intervals
RANGE = {'usize': (0, 2 ** 64 - 1), 'isize': (-2 ** 63, 2 ** 63 - 1), 'char': (0, 0x10ffff), 'bool': (0, 1)}
for _n in (8, 16, 32, 64, 128):
    RANGE['u%d' % _n] = (0, 2 ** _n - 1)
    RANGE['i%d' % _n] = (-2 ** (_n - 1), 2 ** (_n - 1) - 1)
LENMAX = 2 ** 63 - 1


def bounds(p, t, ty, d=0):
    """an interval of the value of t on the path"""
    lo, hi = RANGE.get(ty, (None, None))
    if d > 12 or lo is None:
        return lo, hi
    u = ident(t)
    if u[0] == 'int':
        return u[1], u[1]
    if u[0] == 'cast':
        a, b = bounds(p, u[3], u[1], d + 1)
        if a is not None and u[2] in RANGE and RANGE[u[2]][0] <= a and b <= RANGE[u[2]][1]:
            lo, hi = max(lo, a), min(hi, b)
    elif u[0] == 'call' and last(u) in ('from', 'into') and len(u[2]) == 1:
        pass
    elif u[0] == 'field' and u[2] == 'Some' and u[1][0] == 'call' and last(u[1]) == 'to_digit' and len(u[1][2]) > 1 and ident(u[1][2][1])[0] == 'int':
        lo, hi = 0, ident(u[1][2][1])[1] - 1
    elif u[0] == 'len' or u[0] == 'call' and last(u) in ('len', 'count') or u[0] == 'enumidx':
        lo, hi = 0, LENMAX
    elif u[0] == 'bin':
        r = arith(u[1], bounds(p, u[2], ty, d + 1), bounds(p, u[3], ty, d + 1))
        if r is not None:
            lo, hi = max(lo, r[0]), min(hi, r[1])
    c = canon(t)
    cs = {c, canon(u)}
    for k, v in p.state.facts.items():
        if k[0] == 'is' and k[1] in cs and v[0] == 'int':
            return v[1], v[1]
        if k[0] == 'isnot' and k[1] in cs:
            ex = set(x[1] for x in v if x[0] == 'int')
            while lo in ex:
                lo += 1
            while hi in ex:
                hi -= 1
        if k[0] == 'b' and isinstance(k[1], tuple) and k[1][0] == 'lt':
            a, b = k[1][1], k[1][2]
            if canon(a) in cs or canon(ident(a)) in cs:
                n = ident(b)
                if n[0] == 'int':
                    if v:
                        hi = min(hi, n[1] - 1)
                    else:
                        lo = max(lo, n[1])
                elif v:
                    m = bounds(p, b, ty, d + 6)[1] if d < 3 else None
                    if m is not None:
                        hi = min(hi, m - 1)
            elif canon(b) in cs or canon(ident(b)) in cs:
                n = ident(a)
                if n[0] == 'int':
                    if v:
                        lo = max(lo, n[1] + 1)
                    else:
                        hi = min(hi, n[1])
    if lo > hi:
        raise Infeasible()
    return lo, hi


def arith(op, a, b):
    if None in a or None in b:
        return None
    if op == 'Add':
        return a[0] + b[0], a[1] + b[1]
    if op == 'Sub':
        return a[0] - b[1], a[1] - b[0]
    if op == 'Mul':
        xs = [x * y for x in a for y in b]
        return min(xs), max(xs)
    if op == 'BitAnd' and a[0] >= 0 and b[0] >= 0:
        return 0, min(a[1], b[1])
    if op == 'BitOr' and a[0] >= 0 and b[0] >= 0:
        return 0, (1 << max(a[1].bit_length(), b[1].bit_length())) - 1
    if op == 'Rem' and b[0] > 0 and a[0] >= 0:
        return 0, min(a[1], b[1] - 1)
    if op == 'Div' and b[0] > 0 and a[0] >= 0:
        return a[0] // b[1], a[1] // b[0]
    if op == 'Shr' and a[0] >= 0 and b[0] >= 0:
        return 0, a[1] >> min(b[0], 200)
    if op == 'Shl' and a[0] >= 0 and 0 <= b[1] < 200:
        return a[0], a[1] << b[1]
    return None


# ------------------------------------------------------------------ refutation
def refuted(ctx, I, p, L):
    try:
        return refuted_(ctx, I, p, L)
    except Infeasible:
        return True


class Infeasible(Exception):
    """the conditions of the path contradict each other"""


def refuted_(ctx, I, p, L):
    v = p.value
    if v[0] == 'assert':
        if v[1].startswith(('MisalignedPointer', 'NullPointer', 'NullReference')):
            return True     # pointers are made by safe code; C19 looks after unsafe
        if v[1].startswith('overflow'):
            return no_overflow(ctx, I, p, v, L)
        return in_bounds(p, v[4])
    # empty options and failed results
    if len(v) > 4:
        if impossible(ctx, I, p, v, L):
            return True
    if L is not None and I is L.I:
        from r_pool import discharged
        return discharged(p, L)
    return False


def no_overflow(ctx, I, p, v, L):
    o = [x for x in subterms(v[4]) if x[0] == 'ovf']
    if not o:
        return False
    op, a, b = o[-1][1], o[-1][2], o[-1][3]
    ty = v[5] if len(v) > 5 else None
    if ty not in RANGE:
        return False
    r = arith(op, bounds(p, a, ty), bounds(p, b, ty))
    if r is not None and RANGE[ty][0] <= r[0] and r[1] <= RANGE[ty][1]:
        return True
    # a counter: 64 bits, small steps, not a number somebody sent
    if op == 'Add' and RANGE[ty][1] >= 2 ** 63 - 1:
        for x, y in ((a, b), (b, a)):
            s = bounds(p, y, ty)
            if s[1] is not None and s[1] < 1 << 16 and s[0] >= 0 and not received(I, x):
                return True
    if by_value(p, op, a, b, ty):
        return True
    if op == 'Sub':
        return ty == 'usize' and below(p, b, a, True) or counts_down(I, p, a, b)
    return False


def by_value(p, op, a, b, ty):
    """fits for every value that the (at most two) bytes it is made of can have on the path"""
    from r_codec import domain, byte_value, over_bytes, Unknown, Never
    leaves = []
    for x in list(subterms(a)) + list(subterms(b)):
        if x[0] == 'field' and x[2] == 'Some' and nv(x[1])[0] == 'next' and over_bytes(nv(x[1])) and canon(x) not in leaves:
            leaves.append(canon(x))
    if not 0 < len(leaves) < 3:
        return False
    ds = [domain(p, x) for x in leaves]
    lo, hi = RANGE[ty]
    for v in ds[0]:
        for w in ds[1] if len(ds) > 1 else (0,):
            env = dict(zip(leaves, (v, w)))
            try:
                r = arith(op, (byte_value(a, env),) * 2, (byte_value(b, env),) * 2)
            except Never:
                continue
            except Unknown:
                return False
            if r is None or not lo <= r[0] <= hi:
                return False
    return True


NUMBERS = ('parse', 'from_str', 'from_str_radix', 'from_be_bytes', 'from_le_bytes', 'from_ne_bytes', 'trailing_zeros')


def received(I, t):
    """a number that was read from data"""
    for x in prov(I, t):
        if x[0] == 'call' and (last(x) in NUMBERS or x[1].startswith(('serde', 'miasht::header', 'httpdate')) or last(x).startswith('visit_')):
            return True
        if x[0] == 'await':
            return True
    return False


def counts_down(I, p, a, b):
    """n - 1 where n counts the elements of a kind, and each decrement follows the sight of another element of that kind"""
    if ident(b) != ('int', 1):
        return False
    base = ident(a)
    n = 1
    while base[0] == 'bin' and base[1] == 'Sub' and ident(base[3])[0] == 'int':
        n += ident(base[3])[1]
        base = ident(base[2])
    if base[0] == 'phi':
        # counted down in a loop: each round is accounted for by the elements it sees
        base = ident(root(base))
    if base[0] == 'int':
        return False
    coll, pred = None, None
    if base[0] == 'call' and last(base) == 'count' and base[2]:
        it = base[2][0]
        src = [x[1] for x in subterms(it) if x[0] == 'iterof']
        coll = ident(src[0]) if src else None
        cl = [x for x in subterms(it) if x[0] == 'closure']
        pred = cl[0] if cl else None
    elif base[0] == 'len':
        return False
    groups = {}
    for k, x in p.state.facts.items():
        if k[0] != 'var':
            continue
        if k[1][0] == 'index':
            c = nvd(k[1][1])
            groups.setdefault((c, x), set()).add(k[1][2])
        elif k[1][0] == 'field' and k[1][2] == 'Some' and k[1][1][0] == 'next':
            src = [y[1] for y in subterms(k[1][1]) if y[0] == 'iterof']
            c = nvd(src[0]) if src else None
            while c is not None and is_call(c, 'index') and len(c[2]) == 2:
                c = nvd(c[2][0])
            if c is not None:
                groups.setdefault((c, x), set()).add(canon(k[1]))
    for (c, variant), idx in groups.items():
        if coll is not None and canon(c) != canon(nvd(coll)) and stem(c) != stem(nvd(coll)):
            continue
        if len(idx) < n:
            continue
        if pred is not None and not holds_for(I, p, pred, c, variant, idx):
            continue
        return True
    return False


def holds_for(I, p, pred, coll, variant, idx):
    """the predicate accepts the elements seen (None: unknown)"""
    for i in idx:
        s = p.state.copy()
        s.ev, s.stack = None, ()
        o = ('X', 'elem', i)
        s.objs[o] = i if i[0] == 'field' and i[1][0] == 'next' else ('index', coll, i)
        o2 = ('X', 'elemref', i)
        s.objs[o2] = ('ref', o, (), False)
        try:
            outs = I.call_value(s, pred, [('ref', o2, (), False)], '', 0)
        except Exception:
            return True
        vals = set()
        for s2, r in outs:
            if r[0] == 'ret':
                vals.add(r[1][1] if r[1][0] == 'int' else None)
        if vals == {0}:
            return False
    return True


def in_bounds(p, v):
    """an index below a length"""
    neg = False
    while v[0] == 'not':
        v, neg = v[1], not neg
    if v[0] != 'lt':
        return False
    return below(p, v[1], v[2])


def below(p, i, n, eq=False):
    """i < n (or i <= n) on the path, n a length"""
    if n[0] == 'rest':
        # what is left after the first n[2] elements
        i, n = plus(peel(n[2]), peel(i)), n[1]
    if eq and ceq(i, n):
        return True
    lo, hi = bounds(p, i, 'usize')
    nlo, nhi = bounds(p, n, 'usize')
    if hi is not None and nlo is not None and (hi < nlo or eq and hi <= nlo):
        return True
    ci, cn = canon(nvd(i)), canon(nvd(n))
    for k, v in p.state.facts.items():
        if k[0] == 'b' and isinstance(k[1], tuple) and k[1][0] == 'lt':
            a, b = canon(nvd(k[1][1])), canon(nvd(k[1][2]))
            if v and a == ci and b == cn:
                return True
            if not v and eq and a == cn and b == ci:
                return True
            # i = j + 1 with j < n
            if v and eq and b == cn:
                u = ident(i)
                if u[0] == 'bin' and u[1] == 'Add' and ident(u[3]) == ('int', 1) and canon(nvd(u[2])) == a:
                    return True
                if u[0] == 'int' and ident(k[1][1])[0] == 'int' and u[1] <= ident(k[1][1])[1] + 1:
                    return True
    if differ(p, i, n, eq):
        return True
    u = ident(i)
    if u[0] == 'bin' and u[1] == 'Sub' and ceq(u[2], n) and (nlo or 0) > 0:
        return True
    if eq and u[0] == 'call' and u[1].split('::')[-1] == 'count' and u[2]:
        # a selection of something has at most as many elements
        src = ident(u[2][0])
        while src[0] == 'adt' and src[1] in ('iter:filter', 'iter:filter_map', 'iter:map', 'iter:cloned', 'iter:copied', 'iter:take', 'iter:skip', 'iter:take_while', 'iter:skip_while', 'iter:rev'):
            src = ident(src[3][0])
        m = ident(n)
        if src[0] == 'iterof' and (m[0] == 'len' and ceq(m[1], src[1]) or m[0] == 'call' and m[1].split('::')[-1] == 'len' and ceq(m[2][0], src[1])):
            return True
    # the position of something in the same sequence
    seq = ident(n)
    seq = ident(seq[1]) if seq[0] == 'len' else ident(seq[2][0]) if seq[0] == 'call' and last(seq) == 'len' else None
    return seq is not None and position_in(u, seq, eq)


def offset(t):
    t, k = ident(t), 0
    while t[0] == 'bin' and t[1] in ('Add', 'Sub') and ident(t[3])[0] == 'int':
        k += ident(t[3])[1] if t[1] == 'Add' else -ident(t[3])[1]
        t = ident(t[2])
    if t[0] == 'int':
        return ('int', 0), k + t[1]
    return canon(nvd(t)), k


def differ(p, i, n, eq):
    """i < n (or i <= n) from one comparison of the same two quantities, with constants added"""
    (bi, ki), (bn, kn) = offset(i), offset(n)
    need = ki - kn - (1 if eq else 0)       # bi + need < bn
    if bi == bn:
        return need < 0
    for k, v in p.state.facts.items():
        if k[0] == 'b' and isinstance(k[1], tuple) and k[1][0] == 'lt':
            (ba, ka), (bb, kb) = offset(k[1][1]), offset(k[1][2])
            if v and (ba, bb) == (bi, bn) and need <= ka - kb:
                return True
            # not (a < b): b <= a
            if not v and (bb, ba) == (bi, bn) and need < kb - ka:
                return True
        elif k[0] == 'var' and v == 1 and k[1][0] == 'call' and last(k[1]) in ('get', 'get_mut') and len(k[1][2]) == 2:
            x = nv(k[1][2][1])
            if x[0] == 'adt':
                continue
            (ba, ka), (bb, kb) = offset(x), offset(length(k[1][2][0]))
            if (ba, bb) == (bi, bn) and need <= ka - kb:
                return True
    return False


FINDS = ('find', 'rfind', 'position', 'rposition', 'find_map')


def position_in(u, seq, eq):
    u = ident(u)
    if u[0] == 'bin' and u[1] == 'Add' and ident(u[3])[0] == 'int' and ident(u[3])[1] == 1:
        return eq and position_in(u[2], seq, False)
    if u[0] == 'field' and u[2] == 'Some' and u[1][0] == 'call' and last(u[1]) in FINDS:
        return contains(nvd(u[1]), lambda x: x == nvd(seq))
    if u[0] == 'enumidx':
        return contains(nvd(u), lambda x: x == nvd(seq))
    if u[0] in ('len',) or u[0] == 'call' and last(u) == 'len':
        return eq and ceq(u[1] if u[0] == 'len' else u[2][0], seq)
    return False


PLAIN = ('std::string::String', 'url::Url', 'std::option::Option', 'std::vec::Vec', 'std::borrow::Cow', 'std::boxed::Box')


def plain_data(P, t, seen=None):
    """a type whose JSON encoding can not fail: derived impls over strings, numbers, lists, options"""
    seen = seen or set()
    if t in seen:
        return True
    seen.add(t)
    ty = P.types[t]
    if ty['k'] in ('ref',):
        return plain_data(P, ty['args'][0], seen)
    if ty['s'] in RANGE or ty['s'] in ('str', '()', 'f32', 'f64'):
        return True
    if ty['k'] == 'adt' and ty['path'] in PLAIN:
        return all(plain_data(P, a, seen) for a in ty.get('args', ()) if P.types[a]['k'] != 'adt' or 'alloc' not in P.types[a].get('path', ''))
    return None if ty['k'] != 'adt' else local_plain(P, ty, seen)


def local_plain(P, ty, seen):
    a = P.adts.get(ty['path'])
    if a is None:
        return False
    der = [b for b in P.bodies.values() if b['local'] and b.get('trait') == 'serde::Serialize' and b.get('self_ty') is not None and P.types[b['self_ty']].get('path') == ty['path']]
    if not der or not all('::_::' in b['path'] for b in der):
        return False
    it = [i for i in P.items if i.get('fields') and i.get('ty') is not None and P.types[i['ty']].get('path') == ty['path']]
    if not it:
        return False
    return all(plain_data(P, f[2], seen) for f in it[0]['fields'])


def impossible(ctx, I, p, v, L):
    """the value that makes a library function panic can not occur"""
    args = v[4]
    x = ident(args[0]) if args else None
    if x is not None and x[0] == 'call' and sure(ctx, I, p, v, x):
        return True
    for k, val in p.state.facts.items():
        if k[0] == 'var' and isinstance(k[1], tuple) and k[1][0] == 'call' and val == (0 if last(k[1]) == 'path_segments' else 1) and sure(ctx, I, p, v, k[1]):
            return True
    if x is not None and x[0] == 'static' and always_some(ctx, x[1]):
        return True         # set in its one-time initialisation; C19 decides that this precedes every read
    # the failure of a future that can not fail
    for e in p.events if never_made(ctx) else ():
        if e[0] == 'await' and e[2] == 'err' and nv(e[1])[0] == 'call' and last(nv(e[1])) == 'handle_rpc':
            return True
    return False


def sure(ctx, I, p, v, x):
    """the result of a call that can not fail here"""
    if x is not None and x[0] == 'call':
        n = last(x)
        if x[1].endswith('Url::parse') and x[2] and ident(x[2][0])[0] == 'str':
            s = ident(x[2][0])[1]
            return s.startswith(('http://', 'https://')) and len(s.split('://')[1].split('/')[0]) > 0
        if x[1].startswith('serdeconv::to_json') and x[2]:
            return json_plain(ctx, I, x, v[3])
        if n == 'lock' and 'Mutex' in x[1] or n in ('read', 'write') and 'RwLock' in x[1]:
            return True     # poisoned only by an earlier panic
        if n in ('parse', 'from_str') and x[2] and ident(x[2][0])[0] == 'str':
            return True     # a constant; what it denotes is fixed
        if n == 'path_segments' and based(p, x):
            return True
        if n in ('path_segments_mut',) and based(p, x):
            return True
    return False


def always_some(ctx, name):
    """everything written to the static is Some or Ok"""
    from r_unsafe import accesses
    n = 0
    for b in ctx.P.bodies.values():
        if not b['local']:
            continue
        for i, j, st, kind, sp in accesses(b):
            if st != name or kind != 'write':
                continue
            if j >= len(b['blocks'][i]['s']):
                return False
            r = b['blocks'][i]['s'][j][2]
            rs = [r]
            if r[0] == 'use' and r[1][0] in ('c', 'm') and len(r[1][1]) == 1:
                rs = [s[2] for bl in b['blocks'] for s in bl['s'] if s[0] == '=' and s[1] == r[1][1]]
                if any(bl['t'][0] == 'call' and bl['t'][3][:1] == r[1][1] for bl in b['blocks']):
                    return False
            if not rs or not all(r[0] == 'agg' and r[1][0] == 'adt' and r[1][1] == 'std::option::Option' and r[1][2] == 1 for r in rs):
                return False
            n += 1
    return n > 0


def never_made(ctx):
    """nothing in this crate makes a NeverFail, and its field is private"""
    if 'nevermade' not in ctx._memo:
        ok_ = True
        for b in ctx.P.bodies.values():
            if b['local']:
                for bl in b['blocks']:
                    for st in bl['s']:
                        if st[0] == '=' and st[2][0] == 'agg' and st[2][1][0] == 'adt' and st[2][1][1].endswith('::NeverFail'):
                            ok_ = False
        for i in ctx.P.items:
            if i.get('fields') and i.get('ty') is not None and (ctx.P.types[i['ty']].get('path') or '').endswith('::NeverFail'):
                ok_ = ok_ and not all(f[3] for f in i['fields'])
        ctx._memo['nevermade'] = ok_
    return ctx._memo['nevermade']


def based(p, x):
    """path_segments of a URL that was made from a constant hierarchical one"""
    u = x
    return contains(u, lambda y: y[0] == 'call' and y[1].endswith('Url::parse') and y[2] and ident(y[2][0])[0] == 'str')


def json_plain(ctx, I, x, where):
    a = nv(x[2][0])
    if a[0] == 'adt' and a[1] in ctx.P.adts:
        ty = [t for t in ctx.P.types if t['k'] == 'adt' and t.get('path') == a[1]]
        return any(local_plain(ctx.P, t, set()) for t in ty)
    t = [ty for ty, fn, body in json_types(ctx) if fn == x[1]]
    own = [ty for ty, fn, body in json_types(ctx) if fn == x[1] and body == where]
    t = own or t
    return bool(t) and all(ty['k'] == 'adt' and ty['path'] in ctx.P.adts and local_plain(ctx.P, ty, set()) for ty in t)


def json_types(ctx):
    """types handed to to_json_string* in this crate"""
    if 'jsontys' not in ctx._memo:
        out = []
        for b in ctx.P.bodies.values():
            if not b['local']:
                continue
            for bl in b['blocks']:
                t = bl['t']
                if t[0] == 'call' and t[1].get('path', '').startswith('serdeconv::to_json') and t[1].get('targs'):
                    ty = ctx.P.types[t[1]['targs'][0]]
                    while ty['k'] == 'ref':
                        ty = ctx.P.types[ty['args'][0]]
                    out.append((ty, t[1]['path'], b['path']))
        ctx._memo['jsontys'] = out
    return ctx._memo['jsontys']


# ------------------------------------------------------------------ partial library functions
PARTIAL = ('index', 'index_mut', 'split_at', 'split_at_mut', 'remove', 'swap_remove', 'insert', 'drain', 'split_off', 'truncate', 'copy_from_slice', 'clone_from_slice', 'swap',
           'chunks', 'chunks_exact', 'windows', 'step_by', 'insert_str', 'replace_range', 'add', 'sub', 'borrow', 'borrow_mut', 'from_secs_f64', 'mul_f64', 'repeat', 'from_digit', 'to_digit', 'range')
SIZED = ('with_capacity', 'reserve', 'reserve_exact', 'from_elem', 'resize')
SEQS = ('Vec', 'String', 'str', 'slice', '[', 'VecDeque')
KEYED = ('HashMap', 'BTreeMap', 'HashSet', 'BTreeSet', 'IndexMap')
CLOCKS = ('SystemTime', 'Instant', 'Duration')


def partial(ctx, I, p, e, n):
    """None: not partial; '': fine; '?': unknown; otherwise the reason"""
    path, args, c = e[1], e[2], e[4]
    recv = self_type(ctx.P, c)
    if n in SIZED:
        if not args or n == 'resize' and not any(s in path for s in SEQS):
            return None
        a = args[0] if n == 'with_capacity' else args[1] if len(args) > 1 else None
        if a is None:
            return None
        lo, hi = bounds(p, a, 'usize')
        if hi is not None and hi < 1 << 32:
            return ''
        if sized_by_data(I, a):
            return ''
        if received(I, a):
            return 'the size to allocate is a number that was received: %s' % show(a)[:60]
        return '?'
    if n in ('index', 'index_mut'):
        return index_call(ctx, I, p, e, recv)
    if n in ('add', 'sub'):
        if not any(recv.endswith(x) for x in CLOCKS):
            return None
        # time + time: only configuration and the clock
        for a in args:
            if received(I, a):
                return 'time arithmetic on a received number: %s' % show(a)[:60]
        if n == 'sub' and len(args) > 1:
            return '?'
        return ''
    if n == 'to_digit' or n == 'from_digit':
        r = ident(args[-1]) if args else ('?',)
        return '' if r[0] == 'int' and r[1] <= 36 else 'radix %s' % show(r)[:40]
    if n == 'range':
        return None
    if n in ('borrow', 'borrow_mut'):
        return '?' if 'RefCell' in recv else None
    if any(k in path for k in KEYED):
        return None
    if not any(s in path or s in recv for s in SEQS) or path.startswith(('futures', 'fibers', 'miasht', 'url', 'serde')):
        return None
    if n in ('insert', 'truncate', 'swap') and 'String' not in path and n == 'truncate':
        return None
    if n in ('chunks', 'chunks_exact', 'windows', 'step_by'):
        b = bounds(p, args[1], 'usize') if len(args) > 1 else (0, 0)
        return '' if b[0] and b[0] > 0 else 'the step may be zero'
    if len(args) < 2:
        return None
    if n in ('copy_from_slice', 'clone_from_slice'):
        return '' if ceq(length(args[0]), length(args[1])) else 'the lengths may differ'
    i = args[1]
    if n == 'drain' or n == 'replace_range':
        return range_ok(p, i, args[0], 'str' in path or 'String' in path)
    incl = n not in ('remove', 'swap_remove', 'swap')
    return '' if below(p, i, length(args[0]), incl) and text_boundary(path, i, args[0]) else 'the position %s may be outside' % show(ident(i))[:60]


def text_boundary(path, i, seq):
    if 'str' not in path.lower():
        return True
    u = ident(i)
    if u[0] == 'int' and u[1] == 0:
        return True
    return position_in(u, ident(seq), True)


def length(seq):
    n = seq_length(ident(seq))
    w = window(n[1]) if n[0] == 'len' else None
    if w and w[2] is None:
        return ('rest', ('len', ident(w[0])), w[1])
    return n


def self_type(P, c):
    t = c.get('targs')
    if not t:
        return c.get('path', '')
    ty = P.types[t[0]]
    while ty['k'] in ('ref', 'ptr'):
        ty = P.types[ty['args'][0]]
    return ty.get('path') or ty['s']


def sized_by_data(I, a):
    """a size made of lengths of things that exist"""
    a = ident(a)
    if a[0] == 'int':
        return True
    if a[0] in ('len',) or a[0] == 'call' and last(a) in ('len', 'count', 'capacity', 'len_utf8'):
        return True
    if a[0] == 'bin' and a[1] in ('Add', 'Sub', 'Div', 'Rem', 'Shr', 'BitAnd'):
        return sized_by_data(I, a[2])
    if a[0] == 'bin' and a[1] == 'Mul':
        return sized_by_data(I, a[2]) and sized_by_data(I, a[3])
    if a[0] == 'call' and last(a) in ('min', 'saturating_add', 'saturating_sub', 'saturating_mul', 'clamp'):
        return any(sized_by_data(I, x) for x in a[2])
    if a[0] == 'cast':
        return sized_by_data(I, a[3])
    if a[0] == 'field' and a[1][0] == 'call' and last(a[1]) == 'size_hint':
        return True
    return False


def index_call(ctx, I, p, e, recv):
    args = e[2]
    if recv.startswith('url::') or len(args) < 2:
        return None
    if any(k in recv for k in KEYED):
        m, key = canon(nvd(args[0])), canon(nvd(args[1]))
        for k, v in p.state.facts.items():
            x = k[1]
            if isinstance(x, tuple) and x[0] == 'call' and len(x[2]) == 2 and (
                    k[0] == 'b' and last(x) in ('contains_key', 'contains') and v or
                    k[0] == 'var' and last(x) in ('get', 'get_mut') and v == 1):
                if canon(nvd(x[2][0])) == m and canon(nvd(x[2][1])) == key:
                    return ''
        return 'the key %s may be missing' % show(ident(args[1]))[:60]
    ix = nv(args[1])
    text = recv in ('str', 'std::string::String')
    if ix[0] == 'adt' and 'Range' in ix[1]:
        return range_ok(p, ix, args[0], text)
    if below(p, ix, length(args[0])):
        return ''
    return unknown_state(p, ix) or 'the index %s may be outside' % show(ident(ix))[:60]


def unknown_state(p, t):
    """a plain field of a state left behind by earlier steps: its invariant is not visible here"""
    t = ident(t)
    ahead = 0
    while t[0] == 'bin' and t[1] in ('Add', 'Sub') and ident(t[3])[0] == 'int' and contains(t[2], lambda x: x[0] in ('phi', 'upd')):
        ahead += ident(t[3])[1] if t[1] == 'Add' else -ident(t[3])[1]
        t = ident(t[2])
    if t[0] == 'phi' and t[2][0] == 'L' and len(t[2]) == 3 and ahead > 0:
        return ''       # a local loop counter: reads ahead of it need a check of their own
    return '?' if t[0] == 'field' and (t[1][0] in ('upd', 'param', 'field', 'deref') or contains(t[1], lambda x: x[0] == 'upd')) or t[0] == 'phi' else ''


def range_ok(p, ix, seq, text):
    ix = nv(ix)
    k = ix[1].split('::')[-1] if ix[0] == 'adt' else '?'
    if ix[0] != 'adt':
        return '?'
    n = length(seq)
    s = ident(seq)
    ends = []
    if k == 'RangeFull':
        return ''
    if k == 'RangeFrom':
        ends = [ix[3][0]]
    elif k == 'RangeTo':
        ends = [ix[3][0]]
    elif k == 'Range':
        ends = [ix[3][0], ix[3][1]]
        lo = bounds(p, ix[3][0], 'usize')
        hi = bounds(p, ix[3][1], 'usize')
        if not (lo[1] is not None and hi[0] is not None and lo[1] <= hi[0]) and not below(p, ix[3][0], ix[3][1], True) and not ceq(ix[3][0], ix[3][1]):
            u = ident(ix[3][1])
            if not ceq(u, n) or not below(p, ix[3][0], n, True):
                return unknown_state(p, ix[3][0]) or 'the range %s may be reversed' % show(ix)[:60]
    else:
        return '?'
    for x in ends:
        if not below(p, x, n, True) and not prefix_known(p, x, s):
            return unknown_state(p, x) or 'the position %s may be outside' % show(ident(x))[:60]
    for x in ends:
        if text and contains(x, lambda y: y[0] == 'phi'):
            return '?'
        if text and ident(x) != ('int', 0) and not position_in(x, s, True) and not prefix_known(p, x, s):
            return 'the position %s may be inside a character' % show(ident(x))[:60]
    return ''


def prefix_known(p, x, s):
    """x is at most the length of a constant that the text is known to start with"""
    u = ident(x)
    if u[0] != 'int':
        return False
    for k, v in p.state.facts.items():
        if k[0] == 'b' and v and isinstance(k[1], tuple) and k[1][0] == 'call' and last(k[1]) in ('starts_with', 'ends_with') and len(k[1][2]) > 1 and ceq(k[1][2][0], s):
            c = ident(k[1][2][1])
            if c[0] == 'str' and u[1] == len(c[1].encode()) or c[0] == 'int' and u[1] == 1 and c[1] < 128:
                return True
    return False
