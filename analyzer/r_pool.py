"""C13 - C17: the connection pool, from one received command to the next."""
from common import *
from rules import rule
from r_router import ident, last, ceq, variant_fact, payload, vacant_index
from r_server import poll_kind, parked, projection_of
import machine

CONNECTION = 'miasht::client::Connection'
TIMES = ('std::time::SystemTime', 'std::time::Instant')
CONTAINERS = ('HashMap', 'BTreeMap', 'VecDeque', 'Vec', 'BTreeSet', 'HashSet', 'BinaryHeap', 'LinkedList')
CMD = ('param', 'command')
POOL = ('param', 'pool')
READS = ('get', 'contains_key', 'len', 'is_empty', 'iter', 'keys', 'values', 'range', 'first_key_value', 'last_key_value', 'get_key_value', 'contains', 'front', 'back', 'first', 'last', 'into_iter', 'clone')
ADDS = ('insert', 'push_back', 'push')
TAKES = ('remove', 'remove_entry', 'pop_first', 'pop_last', 'pop_front', 'pop_back')


class Op:
    def __init__(self, i, e, kind):
        self.i, self.e, self.kind = i, e, kind
        self.name = e[1].split('::')[-1]
        self.map, self.args, self.res, self.site = e[2][0], e[2][1:], e[3], e[5]
        self.of_entry = False


def container(P, e):
    """which of the pool's containers a call works on: 'conn' | 'susp' | 'age' | None"""
    c = e[4]
    path = e[1]
    if not any(('::%s::<' % m) in path for m in CONTAINERS) or not e[2]:
        return None
    ts = [P.tys(t) for t in c.get('targs', ())]
    if not ts:
        return None
    s = ' '.join(ts)
    if CONNECTION in s:
        return 'conn'
    if any(t in s for t in TIMES):
        return 'susp'
    if contains(e[2][0], lambda x: x == POOL) and any(k in s for k in ('SocketAddr', 'u64', 'usize', 'pool::')):
        return 'age'
    return None


def ops(P, events, *kinds):
    out = []
    for i, e in enumerate(events):
        if e[0] == 'call':
            k = container(P, e)
            if k and (not kinds or k in kinds):
                out.append(Op(i, e, k))
            elif any('::%s::<' % n in e[1] for n in ENTRIES) and e[2]:
                o = entry_op(P, i, e)
                if o is not None and (not kinds or o.kind in kinds):
                    out.append(o)
    return out


ENTRIES = ('OccupiedEntry', 'VacantEntry')


def entry_op(P, i, e):
    """what a call on an entry does to the map that the entry is of"""
    src = [x for x in subterms(e[2][0]) if x[0] == 'call' and last(x) == 'entry' and len(x[2]) == 2]
    s = ' '.join(P.tys(t) for t in e[4].get('targs', ()))
    kind = 'conn' if CONNECTION in s else 'susp' if any(t in s for t in TIMES) else None
    n = e[1].split('::')[-1]
    if not src or kind is None or n not in ('get', 'get_mut', 'into_mut', 'remove', 'remove_entry', 'insert'):
        return None
    o = Op(i, e, kind)
    o.name = n if n != 'into_mut' else 'get_mut'
    o.map, o.args, o.of_entry = src[0][2][0], (src[0][2][1],) + tuple(e[2][1:]), True
    return o


def chain(t):
    """field path below the pool: ('a', 'b') or None"""
    t = ident(t)
    out = []
    while t[0] in ('field', 'upd', 'phi'):
        if t[0] != 'field':
            t = root(t)
            continue
        out.append(t[3])
        t = ident(t[1])
    return tuple(reversed(out)) if t == POOL else None


def find_chain(I, v, pred, pre=()):
    """field paths of a struct value whose content satisfies pred"""
    out = []
    if pred(v):
        out.append(pre)
    elif v[0] == 'adt' and v[1] in I.p.adts and I.p.adts[v[1]]['kind'] == 'struct':
        for n, x in zip(I.p.adts[v[1]]['variants'][v[2]]['fields'], v[3]):
            out += find_chain(I, x, pred, pre + (n,))
    return out


class Layout:
    """what the pool's fields mean, found from its public constructor and setters and from the command type"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.M, self.ps = machine.pool_runs(ctx)
        I = self.I = self.M.I
        self.P = I.p
        self.size = self.setter('with_pool_size', None)
        self.suspend = self.setter('set_suspended_duration', True)
        self.timeout = self.setter('set_connect_timeout', True)
        # commands
        self.acquire = self.release = self.blame = None
        self.cmd = None
        for it in self.P.items:
            if it['kind'] != 'Enum' or 'fields' not in it:
                continue
            by = {}
            for vn, fn, ft, pub in it['fields']:
                by.setdefault(vn, []).append((fn, self.P.tys(ft)))
            k = {}
            for vn, fs in by.items():
                s = ' '.join(t for _, t in fs)
                if 'oneshot::Sender' in s:
                    k['acquire'] = vn
                elif CONNECTION in s:
                    k['release'] = vn
                elif 'SocketAddr' in s:
                    k['blame'] = vn
            if 'acquire' in k and 'release' in k:
                self.cmd = it['path']
                self.fields = by
                self.__dict__.update(k)
        ctx.need(self.cmd, 'command type of the pool')

    def setter(self, fn, by_ref):
        I = self.I
        b = self.M.body_of('RpcClientPool', fn)
        st = State()
        v = ('param', 'given')
        found = set()
        if by_ref:
            o = ('X', 'pool')
            st.objs[o] = POOL
            outs = [s.objs[o] for s, r in self.M.call(st, b, [('ref', o, (), True), v]) if r[0] == 'ret']
        else:
            outs = [r[1] for s, r in self.M.call(st, b, [v]) if r[0] == 'ret']
        res = None
        for x in outs:
            cs = set(find_chain(I, x, lambda y: ident(y) == v))
            res = cs if res is None else res & cs
        return res or set()

    def configured(self, res, fn):
        self.ctx.ob(res, 'configured', fn, 'the value given to %s is not what the pool keeps' % fn)

    def variant(self, p):
        i = p.state.facts.get(('var', canon(CMD)))
        return self.P.adts[self.cmd]['variants'][i]['name'] if i is not None else None

    def is_addr(self, t):
        """the address of the received command"""
        t = ident(t)
        return t[0] == 'field' and ident(t[1]) == CMD and self.fty(t) == 'std::net::SocketAddr'

    def fty(self, t):
        return dict(self.fields.get(t[2], ())).get(t[3])

    def is_reply(self, t):
        t = ident(t)
        return t[0] == 'field' and ident(t[1]) == CMD and 'oneshot::Sender' in (self.fty(t) or '')

    def is_conn(self, t):
        t = ident(t)
        return t[0] == 'field' and ident(t[1]) == CMD and CONNECTION in (self.fty(t) or '')

    def sent(self, events):
        """commands sent: [(variant, fields, event)]"""
        out = []
        for e in events:
            if e[0] == 'call' and last(e[3]) == 'send' and 'mpsc' in e[1] and len(e[2]) > 1:
                v = ident(e[2][1])
                if v[0] == 'adt' and v[1] == self.cmd:
                    out.append((self.P.variant_name(self.cmd, v[2]), v[3], e))
                else:
                    out.append((None, (v,), e))
        return out

    def builders(self, variant):
        """bodies in which the command is built"""
        i = self.P.variant_index(self.cmd, variant)
        out = []
        called = set()
        for k, b in self.P.bodies.items():
            if b['local']:
                for bl in b['blocks']:
                    if bl['t'][0] == 'call':
                        called.add(bl['t'][1]['path'])
                        called.add(bl['t'][1].get('rpath'))
        for k, b in self.P.bodies.items():
            if b['local'] and (b.get('trait') or b['path'] in called or '{closure' in b['path']):
                for bl in b['blocks']:
                    for s in bl['s']:
                        if s[0] == '=' and s[2][0] == 'agg' and s[2][1][0] == 'adt' and s[2][1][1] == self.cmd and s[2][1][2] == i:
                            out.append((b, s[3]))
        return out


def layout(ctx):
    if 'layout' not in ctx._memo:
        ctx._memo['layout'] = Layout(ctx)
    return ctx._memo['layout']


def replies(ctx):
    """[(path-like start, outcomes)] for everything the pool replies: outcomes = [(path, ('ok'|'err'|'pending', value))]"""
    if 'replies' in ctx._memo:
        return ctx._memo['replies']
    L = layout(ctx)
    out = []
    for st, args, site in L.M.replies:
        n = len(list(st.events()))
        res = []
        try:
            for s, o in resolve_future(L.I, st.copy(), args[1]):
                res.append((Path(s, 'ret' if o[0] in ('ok', 'err') else o[0], o[1] if len(o) > 1 else None), o))
        except AnalysisError as e:
            ctx.note('reply at %s: %s' % (site, e))
        out.append((Path(st, 'ret'), L.I.snap(st, args), n, res, site))
    ctx._memo['replies'] = out
    return out


def addr_facts(p, L, key):
    """is the address inside the key `key` known to be the command's address?"""
    k = ident(key)
    if k[0] == 'adt':
        return any(L.is_addr(x) for x in k[3])
    ip = port = False
    ck = canon(nvd(k))
    for f, v in p.state.facts.items():
        if f[0] != 'b' or not v or f[1][0] != 'eq':
            continue
        for a, b in ((f[1][1], f[1][2]), (f[1][2], f[1][1])):
            if L.is_addr(a) and contains(canon(nvd(b)), lambda x: x == ck) and ident(b)[0] == 'field':
                return True
            if a[0] == 'call' and b[0] == 'call' and last(a) == last(b) and L.is_addr(a[2][0]) and contains(canon(nvd(b)), lambda x: x == ck):
                ip |= last(a) == 'ip'
                port |= last(a) == 'port'
    if ip and port:
        return True
    # a lookup between two bounds which both carry the address
    for t in subterms(k):
        if t[0] == 'call' and last(t) == 'range' and len(t[2]) > 1:
            r = ident(t[2][1])
            if r[0] == 'adt' and len(r[3]) >= 2 and all(bound_has(L, x) for x in r[3][:2]):
                return True
            if r[0] == 'call' and last(r) == 'new' and 'RangeInclusive' in r[1] and all(bound_has(L, x) for x in r[2]):
                return True
    return False


def bound_has(L, b):
    b = ident(b)
    if b[0] == 'adt' and 'Bound' in b[1]:
        if not b[3]:
            return False
        b = ident(b[3][0])
    return b[0] == 'adt' and any(L.is_addr(x) for x in b[3])


def connect_calls(t):
    return [x for x in subterms(t) if x[0] == 'call' and last(x) == 'connect' and 'miasht' in x[1]]


def taken(L, v):
    """v came out of the idle connections: (operation term) or None"""
    v = ident(v)
    n = 0
    while n < 8:
        n += 1
        if v[0] == 'field' and v[2] in ('Some', 'Ok', '', None, '()') and v[1][0] != 'param':
            v = ident(v[1])
        else:
            break
    if v[0] == 'call' and any(('::%s::<' % m) in v[1] for m in CONTAINERS):
        return v
    return None


@rule('C13', 'Every abstract path of RpcClientPool\'s poll handling one acquisition in any state, and every outcome of the future it replies with: a connection handed out is the value removed from the idle map by a key whose address was compared equal (IP and port) to the requested one, or the awaited result of connecting to exactly that address; the address asked for is the one the caller gave. No idle connection is read out without being removed.',
      ['BTreeMap::remove takes the value out of the map; miasht\'s connect(addr) connects to addr'])
def c13(ctx):
    L = layout(ctx)
    npool = nfresh = 0
    for p, args, n, res, site in replies(ctx):
        if L.variant(p) != L.acquire:
            continue
        for q, o in res:
            if o[0] != 'ok':
                continue
            v = o[1]
            t = taken(L, v)
            cs = connect_calls(v)
            if t is not None:
                npool += 1
                if ctx.ob(last(t) in TAKES, 'lent-is-removed', 'pooled', 'a connection is lent out of the pool by %s, which leaves it there' % last(t), site, q):
                    key = t[2][1] if len(t[2]) > 1 else t
                    ctx.ob(addr_facts(q, L, key), 'same-address', 'pooled', 'an idle connection is lent although its address (%s) is not known to be the requested one' % show(ident(key))[:90], site, q)
            elif cs:
                nfresh += 1
                for c in cs:
                    ctx.ob(L.is_addr(c[2][-1]), 'same-address', 'fresh', 'the pool connects to %s, not to the requested address' % show(c[2][-1])[:80], site, q)
            else:
                ctx.note('connection of unknown origin: ' + show(v)[:80])
    ctx.ob(nfresh, 'reachable', 'fresh connection', 'no acquisition leads to a connection attempt')
    ctx.ob(npool, 'reachable', 'pooled connection', 'no acquisition is served from the pool')
    # the address the caller asked for
    client_address(ctx, L)


def client_address(ctx, L):
    M, ps = machine.call_future(ctx, 'PooledRpcClient')
    mk = M.body_of('RpcClientPoolHandle', 'client')
    st = State()
    o = ('X', 'handle')
    st.objs[o] = ('param', 'handle')
    chains = None
    for s, r in M.call(st, mk, [('ref', o, (), False), ('param', 'wanted')]):
        if r[0] == 'ret':
            cs = set(find_chain(M.I, r[1], lambda y: ident(y) == ('param', 'wanted')))
            chains = cs if chains is None else chains & cs
    ctx.ob(chains, 'asks-for-own-address', 'client', 'the client does not keep the address it was made for')
    for p in ps:
        for vn, fs, e in L.sent(p.events):
            if vn != L.acquire:
                continue
            a = [x for x in fs if field_chain(x, ('param', 'client')) in (chains or ())]
            ctx.ob(a, 'asks-for-own-address', 'acquisition', 'the acquisition asks for %s' % ', '.join(show(x)[:50] for x in fs), e[5], p)


def field_chain(t, base):
    t = ident(t)
    out = []
    while t[0] == 'field':
        out.append(t[3])
        t = ident(t[1])
    return tuple(reversed(out)) if t == base else None


@rule('C14', 'Every abstract path of PooledRpcClient::call to completion, and every construction of the return command in the crate: a connection is given back at most once, only on a path on which the call is ready with its response, it is the connection from which that response was read to its end, and it is filed under the address it was acquired for; the pool files it under the address of the command.',
      ['the finish() of a miasht response yields the connection the response was read from'])
def c14(ctx):
    L = layout(ctx)
    M, ps = machine.call_future(ctx, 'PooledRpcClient')
    acq = {}
    n = 0
    for p in ps:
        sent = L.sent(p.events)
        k = poll_kind(p)
        acq = [fs for vn, fs, e in sent if vn == L.acquire]
        rel = [(fs, e) for vn, fs, e in sent if vn == L.release]
        if k in ('err', 'parked') or p.kind != 'ret':
            ctx.ob(not rel, 'returned-after-success', str(k or p.kind), 'the connection is given back although the call did not succeed', rel[0][1][5] if rel else '', p)
            continue
        if k != 'ready':
            continue
        ctx.ob(len(rel) <= 1, 'returned-once', 'call', 'a connection is given back %d times' % len(rel), rel[-1][1][5] if rel else '', p)
        for fs, e in rel:
            n += 1
            conn = [x for x in fs if contains(x, lambda y: y[0] == 'await')]
            addr = [x for x in fs if x not in conn]
            ctx.ob(len(addr) == 1 and acq and any(ceq(addr[0], y) for y in acq[0]), 'filed-under-its-address', 'call', 'the connection is given back under %s, not the address it was acquired for' % (show(addr[0])[:60] if addr else '?'), e[5], p)
            if ctx.ob(len(conn) == 1, 'returned-connection', 'call', 'what is given back is not the call\'s connection', e[5], p):
                # complete: the body reader's result or, without a body, the response itself
                rr = [x for x in subterms(conn[0]) if x[0] == 'await' and x[1] == 'ok']
                heads = [x for x in rr if is_call(x[2], 'read_response')]
                ctx.ob(heads, 'returned-connection', 'call/response-read', 'a connection is given back before a response was read from it', e[5], p)
                wanted = [x for x in p.events if x[0] == 'await' and x[2] == 'ok' and is_call(x[1], 'read_all_bytes')]
                if heads and not wanted:
                    from r_client import proc_head
                    from r_server import head_index
                    ctx.ob(proc_head(p, head_index(ctx)) is True, 'returned-connection', 'call/body-skipped', 'a connection is given back although the body of its response was not read', e[5], p)
                for w in wanted:
                    ctx.ob(any(x == w[3] for x in rr), 'returned-connection', 'call/body-read', 'a connection is given back from before its response body was read', e[5], p)
            ctx.ob(poll_kind(p) == 'ready', 'returned-after-success', 'ready', '', e[5], p)
    # nothing else gives connections back
    for b, site in L.builders(L.release):
        ctx.ob(b['path'] in M.I.visited | L.I.visited, 'only-completed-calls-return', b['path'], 'connections are given back from %s, outside of a completed call' % b['path'], site)
    # filing in the pool
    m = 0
    for p in L.ps:
        if L.variant(p) == L.acquire:
            for op in ops(L.P, p.events, 'conn'):
                ctx.ob(op.name not in ADDS, 'only-returned-ones-are-idle', 'acquisition', 'a connection becomes idle while serving an acquisition', op.site, p)
        if L.variant(p) != L.release:
            continue
        for op in ops(L.P, p.events, 'conn'):
            if op.name in ADDS:
                m += 1
                if op.name == 'insert' and len(op.args) == 2:
                    k = ident(op.args[0])
                    ctx.ob(k[0] != 'adt' and L.is_addr(k) or k[0] == 'adt' and any(L.is_addr(x) for x in k[3]), 'filed-under-its-address', 'pool', 'the pool files a returned connection under %s' % show(k)[:80], op.site, p)
                    ctx.ob(contains(op.args[1], lambda x: L.is_conn(x)), 'filed-under-its-address', 'pool/connection', 'the pool files %s' % show(op.args[1])[:80], op.site, p)
    if not n or not m:
        ctx.note('connections are never given back' if not n else 'filing not recognised')


def components(t):
    """values inside a key: itself, its fields, and projections of it are recognised by has_part"""
    t = ident(t)
    return [ident(x) for x in t[3]] if t[0] == 'adt' else [t]


def has_part(key, part):
    """`part` is a component of `key` (or the key itself)"""
    key, part = ident(key), ident(part)
    if ceq(key, part) or any(ceq(c, part) for c in components(key)):
        return True
    return part[0] == 'field' and (ceq(part[1], key) or has_part(key, part[1]) if part[1][0] != 'param' else ceq(part[1], key))


def same_entry(a, b):
    """two keys of the two containers that name the same idle connection"""
    if has_part(a, b) or has_part(b, a):
        return True
    ca, cb = components(a), components(b)
    return any(ceq(x, y) for x in ca for y in cb if not addr_like(x))


def addr_like(t):
    t = ident(t)
    return t[0] == 'field' and t[3] in ('addr', 'address')


def removed_nothing(p, op, L=None):
    if L is not None and nonempty(p, L, canon(op.res)):
        return False
    return op.name in TAKES and variant_fact(p, op.res) == 0


def size_facts(p, L):
    """[(index of the len call, bound)]: at that point len(idle) <= size + bound is known; and [(index)] where len > size or len >= size is known"""
    known, over = [], []
    lens = [op for op in ops(L.P, p.events, 'conn') if op.name == 'len']
    lens += [op for op in ops(L.P, p.events, 'age') if op.name == 'len']      # the two list the same entries (pairing)

    def size(t):
        t, n = const_add(t)
        return n if chain(t) in L.size else None
    for op in lens:
        cl = canon(op.res)
        for f, v in p.state.facts.items():
            if f[0] != 'b' or f[1][0] != 'lt':
                continue
            a, b = f[1][1], f[1][2]
            if b == cl and size(a) is not None:          # size + n < len
                (over if v else known).append((op.i, size(a)))
            elif a == cl and size(b) is not None:        # len < size + n
                (known if v else over).append((op.i, size(b) - 1))
    for op in ops(L.P, p.events, 'conn') + ops(L.P, p.events, 'age'):
        if op.name in ('is_empty', 'len'):
            cl = canon(op.res)
            f = p.state.facts
            if f.get(('b', cl)) is True or f.get(('is', cl)) == ('int', 0) or f.get(('b', ('lt', ('int', 0), cl))) is False or any(k[0] == 'b' and v is True and k[1][0] == 'eq' and ('int', 0) in k[1] and cl in k[1] for k, v in f.items()):
                known.append((op.i, 0))      # none at all
    for i, e in enumerate(p.events):
        if e[0] == 'call' and (e[3][0] == 'next' or last(e[3]) in FIRSTS + ENDS + ('next_back', 'max', 'min')) and variant_fact(p, e[3]) == 0 and whole(L, e[3]):
            known.append((i, 0))
    return known, over


def excess_loop(p, L, ps):
    """eviction loops that run exactly len - size times: index of the loop event"""
    for i, e in enumerate(p.events):
        if e[0] != 'call' or last(e[3]) not in ('saturating_sub', 'checked_sub', 'wrapping_sub'):
            continue
        a = e[2]
        if len(a) == 2 and is_len(a[0], L) and chain(a[1]) in L.size:
            if any(x[0] == 'loop' for x in p.events[i:]):
                body = [q for q in ps if q.kind == 'loopback' and any(x[0] == 'call' and ceq(x[3], e[3]) for x in q.events)]
                if body and all(sum(op.name in TAKES for op in ops(L.P, q.events, 'conn')) == 1 for q in body) and runs_excess(p, i, e[3], L) is not False:
                    return i
    return None


def runs_excess(p, i, n, L):
    """the loop over a range or list made from the excess n runs exactly n times (None: not visible)"""
    for e in p.events[i:]:
        if e[0] != 'call' or last(e[3]) != 'next' and e[3][0] != 'next':
            continue
        it = root(nv(e[2][0]))
        r = next((x for x in subterms(it) if x[0] == 'adt' and x[1].split('::')[-1] in ('Range', 'RangeInclusive')), None)
        if r is not None and len(r[3]) >= 2:
            lo, hi = root(ident(r[3][0])), ident(r[3][1])
            if lo[0] == 'int' and contains(hi, lambda x: ceq(x, n)):
                h, k = const_add(hi)
                return ceq(h, n) and k - lo[1] + ('Inclusive' in r[1]) == 0
        if contains(it, lambda x: x[0] == 'adt' and x[1] == 'iter:take'):
            return takes_excess(it, L)
    return None


def takes_excess(it, L):
    """an iterator over the first len - size elements of the age index"""
    t = [x for x in subterms(it) if x[0] == 'adt' and x[1] == 'iter:take']
    other = [x for x in subterms(it) if x[0] == 'adt' and x[1] in ('iter:skip', 'iter:step_by', 'iter:filter', 'iter:skip_while', 'iter:take_while', 'iter:rev', 'iter:chain') or x[0] == 'call' and last(x) in LASTS]
    if len(t) != 1 or other:
        return False
    n = ident(t[0][3][1])
    if n[0] == 'field' and n[2] == 'Some':
        n = ident(n[1])
    return n[0] == 'call' and last(n) in ('saturating_sub', 'checked_sub', 'wrapping_sub') and is_len(n[2][0], L) and chain(n[2][1]) in L.size or \
        n[0] == 'bin' and n[1] == 'Sub' and is_len(n[2], L) and chain(n[3]) in L.size


def is_len(t, L):
    t = ident(t)
    return t[0] == 'call' and last(t) == 'len' or t[0] == 'len'


def const_add(t):
    """t = base + n -> (base, n)"""
    t = ident(t)
    n = 0
    while True:
        if t[0] == 'field' and t[1][0] == 'bin':
            t = ident(t[1])
        elif t[0] == 'bin' and t[1].startswith('Add') and ident(t[3])[0] == 'int':
            n += ident(t[3])[1]
            t = ident(t[2])
        elif t[0] == 'call' and last(t) in ('wrapping_add', 'saturating_add') and ident(t[2][1])[0] == 'int':
            n += ident(t[2][1])[1]
            t = ident(t[2][0])
        elif t[0] == 'field' and t[2] == 'Some' and ident(t[1])[0] == 'call' and last(ident(t[1])) == 'checked_add' and ident(ident(t[1])[2][1])[0] == 'int':
            n += ident(ident(t[1])[2][1])[1]
            t = ident(ident(t[1])[2][0])
        else:
            return t, n


@rule('C15', 'Every abstract path of the pool\'s poll for one command in any state, with the eviction loop as a fixpoint: after the last insertion of an idle connection the path has established len <= configured size (or removed as many as it inserted), idle connections are evicted only where len > size is established, the evicted one is the first of the age index, every insertion and removal of an idle connection is paired with that of the same entry in the age index, and the age given to a returned connection is a counter that every return increases; the key order distinguishes ages.',
      ['BTreeMap iterates in ascending key order; fewer than 2^64 connections are returned'])
def c15(ctx):
    L = layout(ctx)
    P = L.P
    L.configured(L.size, 'with_pool_size')
    allops = [op for p in L.ps for op in ops(P, p.events)]
    has_age = any(op.kind == 'age' for op in allops)
    if not ctx.ob(any(op.kind == 'conn' for op in allops), 'anchor', 'idle connections', 'no container of idle connections found'):
        return
    if not has_age:
        ctx.note('no separate age index')
    nrel = nev = 0
    for p in L.ps:
        vn = L.variant(p)
        if vn is None or p.kind not in ('ret', 'loopback', 'stop'):
            continue
        co = ops(P, p.events, 'conn')
        ao = ops(P, p.events, 'age')
        who = vn if p.kind == 'ret' else vn + '/loop'
        for op in co + ao:
            if op.name not in READS + ADDS + TAKES and any(op.map[0] == '&' for _ in (0,)):
                ctx.note('operation %s on the %s container is not interpreted' % (op.name, op.kind))
        # pairing
        if has_age:
            pairing(ctx, p, who, co, ao, L)
        ins = [op for op in co if op.name in ADDS]
        tk = [op for op in co if op.name in TAKES and not removed_nothing(p, op)]
        clears = [op for op in co if op.name in ('clear', 'drain', 'retain', 'split_off')]
        if vn != L.release:
            if vn != L.acquire:
                ctx.ob(not ins and not tk and not clears, 'idle-set-kept', who, 'the idle connections are changed by a command that is about none', (ins + tk + clears)[0].site if ins + tk + clears else '', p)
            ctx.ob(not ins, 'capacity', who, 'a connection becomes idle without a check of the pool size', ins[0].site if ins else '', p)
            ctx.ob(len(tk) <= 1 and not clears, 'idle-set-kept', who + '/one', 'an acquisition removes several idle connections', tk[-1].site if tk else '', p)
            continue
        known, over = size_facts(p, L)
        if p.kind == 'ret':
            nrel += 1
            lastins = max([op.i for op in ins] or [-1])
            okc = not ins
            for i, b in known:
                if b + sum(1 for op in ins if op.i > i) <= 0:
                    okc = True
            if len(tk) >= len(ins) and not any(e[0] == 'loop' for e in p.events):
                okc = True
            x = excess_loop(p, L, L.ps)
            if x is not None and lastins < x:
                okc = True
            ctx.ob(okc, 'capacity', who, 'after a connection is returned the pool may hold more than the configured number of idle connections', ins[-1].site if ins else '', p)
        # evictions
        first_ins = min([op.i for op in ins] or [10 ** 9])
        for op in tk:
            nev += 1
            need = [i for i, b in over if i < op.i and (b >= 0 or b == -1 and (i < first_ins or not ins))]
            x = excess_loop(p, L, L.ps)
            ctx.ob(need or x is not None and x < op.i, 'evicts-only-over-capacity', who, 'an idle connection is dropped although the pool is not known to hold more than its size', op.site, p)
            if has_age:
                oldest(ctx, L, p, who, op, ao)
        # ages
        if p.kind == 'ret' or p.kind == 'loopback':
            ages(ctx, L, p, who, ao)
    ctx.ob(nrel, 'reachable', 'return', 'no path returns a connection to the pool')
    key_order(ctx, L, allops)
    # the configured size is never changed after construction
    for p in L.ps:
        v = p.state.objs.get(('F', 'pool'))
        if v is None or v == POOL:
            continue
        for c in L.size:
            x = v
            for n in c:
                if x[0] != 'adt':
                    break
                x = x[3][L.P.adts[x[1]]['variants'][x[2]]['fields'].index(n)]
            else:
                ctx.ob(ident(x)[0] == 'field' and chain(x) == c, 'size-is-fixed', L.variant(p) or 'idle', 'the configured size is changed to %s' % show(x)[:60], '', p)


def pairing(ctx, p, who, co, ao, L):
    for a, b, what, other in ((co, ao, 'idle connection', 'age index'), (ao, co, 'age index entry', 'idle connections')):
        for op in a:
            if removed_nothing(p, op, L):
                continue
            names = ADDS if op.name in ADDS else TAKES if op.name in TAKES else ('clear',) if op.name == 'clear' else None
            if names is None:
                continue
            m = [o for o in b if o.name in names and not removed_nothing(p, o, L) and (op.name == 'clear' or entry_match(op, o))]
            ctx.ob(m, 'index-in-step', '%s/%s/%s' % (who, op.kind, op.name), 'an %s is changed (%s) without the same change to the %s' % (what, op.name, other), op.site, p)


def keys_of(op):
    """terms naming the entry: the key argument, or what a pop returned"""
    if op.args:
        return list(op.args[:1]) if op.name != 'insert' or len(op.args) < 2 else [op.args[0]]
    return [op.res]


def entry_match(a, b):
    ka, kb = keys_of(a)[0], keys_of(b)[0]
    if a.name in TAKES and not a.args:
        return contains(kb, lambda x: ceq(x, a.res))
    if b.name in TAKES and not b.args:
        return contains(ka, lambda x: ceq(x, b.res))
    if a.kind == 'conn' and a.name == 'insert' and b.name == 'insert' and len(b.args) > 1:
        # the index entry must lead back to the connection: age and address
        if not (same_entry(ka, kb)):
            return False
        ca = components(ka)
        return len(ca) < 2 or has_part(ka, b.args[1]) or ident(b.args[1])[0] != 'field'
    return same_entry(ka, kb)


FIRSTS = ('first_key_value', 'pop_first', 'front', 'pop_front', 'first', 'first_entry')
def whole(L, t):
    """t asks for the first element of one of the containers, of all its elements"""
    n = 0
    while n < 12:
        n += 1
        t = root(ident(t))
        if chain(t) is not None:
            return container_type(L, t) in ('age', 'conn')
        if t[0] == 'call' and t[2] and last(t) in FIRSTS + ENDS + ('next_back', 'max', 'min', 'iter', 'keys', 'values', 'map', 'cloned', 'copied', 'into_iter', 'rev', 'by_ref', 'enumerate'):
            t = t[2][0]
        elif t[0] in ('next', 'iterof'):
            t = t[1]
        else:
            return False
    return False


LASTS = ('last_key_value', 'pop_last', 'back', 'pop_back', 'last', 'next_back', 'max', 'max_by', 'max_by_key', 'rev', 'last_entry', 'nth', 'nth_back')


def oldest(ctx, L, p, who, op, ao):
    key = keys_of(op)[0]
    bad = [x for x in subterms(key) if x[0] == 'call' and last(x) in LASTS or x[0] == 'iterelem' and x[1] in ('rev', 'skip', 'step_by', 'skip_while')]
    ctx.ob(not bad, 'evicts-the-oldest', who, 'the dropped connection is chosen by %s' % ((last(bad[0]) or bad[0][1]) if bad else ''), op.site, p)
    nx = [x for x in subterms(key) if x[0] == 'next' or x[0] == 'call' and last(x) in FIRSTS]
    if not nx:
        ctx.note('choice of the dropped connection not recognised: ' + show(key)[:80])
        return
    for x in nx:
        if x[0] == 'next':
            ev = [e for e in p.events if e[0] == 'call' and last(e[3]) == 'next' or e[0] == 'call' and ident(e[3]) == x]
            ev = [e for e in ev if ident(e[3]) == x]
            for e in ev:
                it = nv(e[2][0])
                ctx.ob(it[0] not in ('upd', 'phi') or takes_excess(it, L), 'evicts-the-oldest', who + '/first', 'the dropped connection is not the first of the index', op.site, p)
        base = base_map(x)
        if base is None:
            ctx.note('choice of the dropped connection not recognised: ' + show(key)[:80])
            continue
        ty = container_type(L, base)
        ctx.ob(ty is None or ty == 'age', 'evicts-the-oldest', who + '/index', 'the dropped connection is chosen by the order of %s, which is not the order of their return' % show(base)[:60], op.site, p)
        unordered = [o for o in ao if 'HashMap' in o.e[1] or 'HashSet' in o.e[1]]
        ctx.ob(not unordered, 'evicts-the-oldest', who + '/ordered', 'the age index is not ordered', op.site, p)


def container_type(L, t):
    """kind of the container field t"""
    c = chain(t)
    if c is None:
        return None
    for p in L.ps:
        for op in ops(L.P, p.events):
            if chain(op.map) == c:
                return op.kind
    return None


def ages(ctx, L, p, who, ao):
    for op in ao:
        if op.name != 'insert' or len(op.args) != 2:
            continue
        base, n = const_add(op.args[0])
        c = chain(base)
        if not ctx.ob(c is not None and ident(base)[0] == 'field', 'age-increases', who, 'the age of a returned connection is %s, which does not grow with every return' % show(op.args[0])[:70], op.site, p):
            continue
        v = p.state.objs.get(('F', 'pool'))
        x = v
        for f in c:
            if x[0] != 'adt':
                break
            x = x[3][L.P.adts[x[1]]['variants'][x[2]]['fields'].index(f)]
        if x[0] == 'phi':
            continue
        b2, m = const_add(x)
        ctx.ob(ceq(b2, base) and (m > n or m == n and n > 0), 'age-increases', who + '/counter', 'the counter of ages is %s after giving out %s' % (show(x)[:50], show(op.args[0])[:50]), op.site, p)
        t = [L.P.tys(t) for t in op.e[4].get('targs', ())]
        ctx.ob(not t or t[0] not in ('u8', 'u16', 'u32', 'i8', 'i16', 'i32'), 'age-increases', who + '/width', 'ages of type %s wrap around' % (t[0] if t else ''), op.site, p)


def key_order(ctx, L, allops):
    """the ordering of a local key type tells entries of different age apart"""
    ks = set()
    for op in allops:
        if op.kind == 'conn' and 'BTreeMap' in op.e[1] and op.e[4].get('targs'):
            t = L.P.types[op.e[4]['targs'][0]]
            if t['k'] == 'adt' and t['path'] in L.P.adts and L.P.adts[t['path']].get('local'):
                ks.add(t['path'])
    for k in sorted(ks):
        b = L.P.impl_method('std::cmp::Ord', lambda t: t.get('path') == k, 'cmp')
        if not b:
            ctx.note('no Ord of %s' % k)
            continue
        b = b[0]
        M = machine.Machine(ctx)
        st = State()
        for n in 'ab':
            st.objs[('X', n)] = ('param', n)
        outs = M.call(st, b, [('ref', ('X', 'a'), (), False), ('ref', ('X', 'b'), (), False)])
        ps = paths(outs)
        ctx.track(M.I, ps)
        fields = L.P.adts[k]['variants'][0]['fields']
        # every field is looked at on some path, on both sides
        terms = [p.value for p in ps if p.kind == 'ret'] + [f[1] for p in ps for f in p.state.facts]
        terms += [a for p in ps for e in p.events if e[0] == 'call' for a in e[2]]
        for f in fields:
            for n in 'ab':
                okf = any(contains(canon(t), lambda x: x[0] == 'field' and x[3] == f and x[1] == ('param', n)) for t in terms if isinstance(t, tuple) and t)
                ctx.ob(okf, 'key-tells-entries-apart', '%s.%s/%s' % (k, f, n), 'the order of %s ignores %s: returning a connection can replace another one' % (k, f), b.get('span', ''))


# ------------------------------------------------------------------ suspension
def susp_entry(p, L):
    """lookups of the requested address among the suspended ones: [(op)]"""
    return [op for op in ops(L.P, p.events, 'susp') if not op.of_entry and op.name in ('remove', 'get', 'get_mut', 'remove_entry', 'get_key_value', 'contains_key', 'entry') and op.args]


def suspension(p, L):
    """'suspended' | 'over' | 'absent' | 'present' | 'unknown' for the requested address on this path"""
    r = 'unknown'
    for op in susp_entry(p, L):
        if not L.is_addr(op.args[0]):
            continue
        v = variant_fact(p, op.res)
        if op.name == 'entry' and v is not None:
            v = int(v != vacant_index(L.ctx))
        if v == 0:
            return 'absent'
        if v == 1:
            r = 'present'
            co = canon(op.res)
            for f, b in p.state.facts.items():
                if f[0] != 'b' or f[1][0] != 'lt':
                    continue
                x, y = f[1][1], f[1][2]
                xn, yn = is_now(x), is_now(y)
                if xn and contains(y, lambda z: z == co) and plain_until(y, co):
                    return 'suspended' if b else 'over'
                if yn and contains(x, lambda z: z == co) and plain_until(x, co):
                    return 'over' if b else 'suspended'
    return r


def plain_until(t, co):
    """the time stored in the entry, unchanged"""
    t = ident(t)
    while t[0] == 'field' or t[0] == 'call' and 'OccupiedEntry::<' in t[1] and last(t) in ('get', 'get_mut', 'into_mut', 'remove', 'remove_entry'):
        t = ident(t[1] if t[0] == 'field' else t[2][0])
    return canon(t) == co


def is_now(t):
    t = ident(t)
    return t[0] == 'call' and last(t) == 'now' and 'std::time::' in t[1]


@rule('C16', 'Every abstract path of the pool\'s poll and every outcome of the futures it replies with: where the entry of the requested address says until > now, the reply fails without any connection attempt and the entry stays; where there is none or it is over, the reply is an idle connection or an attempt; a blame command stores now + the configured duration under its address and touches no other; a blame command is sent exactly where a connection attempt under the configured timeout fails, for the address of that attempt, and from nowhere else.',
      ['fibers\' timeout_after(d) fails after d; SystemTime::now() is the current time'])
def c16(ctx):
    L = layout(ctx)
    P = L.P
    if not ctx.ob(L.blame, 'anchor', 'blame command', 'the pool knows no command that suspends an address'):
        return
    L.configured(L.suspend, 'set_suspended_duration')
    L.configured(L.timeout, 'set_connect_timeout')
    seen = {}
    for p, args, n, res, site in replies(ctx):
        if L.variant(p) != L.acquire:
            continue
        s = suspension(p, L)
        kinds = set()
        for q, o in res:
            new = q.events[n:]
            conn = connect_calls(('t',) + tuple(x for e in q.events if e[0] == 'call' for x in (e[3],))) or any(e[0] == 'call' and last(e[3]) == 'connect' for e in q.events)
            aw = [e for e in new if e[0] == 'await']
            if o[0] == 'ok':
                kinds.add('conn')
            elif o[0] == 'err':
                kinds.add('attempt-failed' if aw else 'failed')
            elif o[0] == 'pending':
                kinds.add('attempt')
            blames = [(fs, e) for vn, fs, e in L.sent(new) if vn == L.blame]
            attempts = [e for e in aw if connect_calls(e[1])]
            failed = [e for e in attempts if e[2] == 'err']
            if failed and o[0] == 'err':
                if ctx.ob(len(blames) == 1, 'failed-connect-suspends', 'attempt', '%d suspensions follow a failed connection attempt' % len(blames), site, q):
                    ctx.ob(any(L.is_addr(x) for x in blames[0][0]), 'failed-connect-suspends', 'address', 'another address than the one of the attempt is suspended', blames[0][1][5], q)
            else:
                ctx.ob(not blames, 'only-failed-connects-suspend', s + '/' + o[0], 'an address is suspended although no connection attempt failed', blames[0][1][5] if blames else '', q)
            for e in attempts:
                t = [x for x in subterms(e[1]) if x[0] == 'call' and last(x) in ('timeout_after',)]
                ctx.ob(any(len(x[2]) > 1 and chain(x[2][1]) in L.timeout for x in t), 'connect-timeout', 'attempt', 'a connection attempt is not limited by the configured timeout', site, q)
            if s == 'suspended':
                ctx.ob(o[0] in ('err', 'pending') and not aw and not conn, 'suspended-fails-fast', 'reply', 'a connection to a suspended address is attempted or lent', site, q)
        seen[s] = seen.get(s, set()) | kinds
        if s in ('over', 'absent'):
            ctx.ob(res and not ('failed' in kinds), 'attempted-when-not-suspended', s, 'an acquisition fails without an attempt although the address is not suspended', site, p)
        elif s != 'suspended':
            ctx.ob(False, 'suspension-decides', s, 'an acquisition is answered without comparing the suspension of its address with the current time', site, p)
    ctx.ob('suspended' in seen, 'reachable', 'suspended', 'no acquisition is ever refused because of a suspension')
    ctx.ob('absent' in seen or 'over' in seen, 'reachable', 'attempted', 'no acquisition is ever attempted')
    # effects on the table of suspensions
    nb = 0
    for p in L.ps:
        vn = L.variant(p)
        if vn is None or p.kind not in ('ret', 'loopback'):
            continue
        so = ops(P, p.events, 'susp')
        for op in so:
            if op.name in ('clear', 'drain', 'split_off', 'pop_first', 'pop_last'):
                ctx.ob(False, 'other-addresses-kept', vn + '/' + op.name, 'suspensions of other addresses are lifted', op.site, p)
            elif op.name == 'retain':
                ctx.ob(retains_current(ctx, L, p, op), 'other-addresses-kept', vn + '/retain', 'suspensions that are not over are lifted', op.site, p)
            elif op.name in TAKES + ('insert', 'entry'):
                ctx.ob(op.args and L.is_addr(op.args[0]), 'other-addresses-kept', vn + '/' + op.name, 'the suspension of %s is changed' % (show(op.args[0])[:60] if op.args else '?'), op.site, p)
        net = [op for op in so if op.name in ('remove', 'remove_entry', 'insert')]
        if vn == L.blame:
            nb += 1
            stored = [(op.args[1], op.site) for op in net if op.name == 'insert'][-1:]
            if not stored or net[-1].name != 'insert':
                stored = [(v, '') for o, v in p.state.objs.items() if o[0] == '*' and contains(o, lambda x: x[0] == 'call' and last(x) in ('or_insert', 'or_insert_with')) and v[0] != 'upd']
            if ctx.ob(stored, 'suspended-from-now', 'blame', 'a blamed address is not suspended on every path', '', p):
                ctx.ob(until_ok(stored[-1][0], L), 'suspended-from-now', 'duration', 'a blamed address is suspended until %s' % show(stored[-1][0])[:90], stored[-1][1], p)
        elif vn == L.acquire:
            s = suspension(p, L)
            if s == 'suspended':
                if net and net[-1].name != 'insert':
                    ctx.ob(False, 'suspension-kept', 'acquisition', 'asking for a suspended address lifts its suspension', net[-1].site, p)
                for op in net:
                    if op.name == 'insert':
                        rm = [o for o in susp_entry(p, L) if o.i < op.i]
                        ctx.ob(rm and plain_until(op.args[1], canon(rm[-1].res)), 'suspension-kept', 'acquisition/until', 'asking for a suspended address changes the end of its suspension to %s' % show(op.args[1])[:70], op.site, p)
            else:
                ctx.ob(not any(op.name == 'insert' for op in net), 'only-failed-connects-suspend', 'acquisition', 'an acquisition suspends its address', net[-1].site if net else '', p)
        else:
            ctx.ob(not net, 'other-addresses-kept', vn, 'suspensions are changed by a command that is not about them', net[0].site if net else '', p)
    ctx.ob(nb, 'reachable', 'blame', 'no path handles a blamed address')
    # calls never suspend an address that could be connected to
    M, ps = machine.call_future(ctx, 'PooledRpcClient')
    for p in ps:
        bl = [(i, e) for vn, fs, e in L.sent(p.events) if vn == L.blame for i in [p.events.index(e)]]
        for i, e in bl:
            before = [x for x in p.events[:i] if x[0] == 'await']
            ctx.ob(before and before[-1][2] == 'err' and not connected(before), 'only-failed-connects-suspend', 'call', 'an address is suspended although it could be connected to', e[5], p)
    for b, site in L.builders(L.blame):
        ctx.ob(b['path'] in M.I.visited | L.I.visited, 'only-failed-connects-suspend', b['path'], 'addresses are suspended from %s, not from a failed connection attempt' % b['path'], site)


def connected(aw):
    """a connection was obtained: the acquired future (awaited from the reply channel) resolved"""
    return any(e[2] == 'ok' and e[1][0] == 'await' for e in aw) or any(e[2] == 'ok' and contains(e[1], lambda x: x[0] == 'call' and last(x) in ('write_all_bytes', 'read_response')) for e in aw)


def until_ok(t, L):
    t = ident(t)
    if t[0] == 'field' and t[2] == 'Some':
        t = ident(t[1])
    if t[0] == 'call' and last(t) in ('add', 'checked_add') and len(t[2]) == 2:
        return is_now(t[2][0]) and chain(t[2][1]) in L.suspend
    if t[0] == 'bin' and t[1].startswith('Add'):
        return is_now(t[2]) and chain(t[3]) in L.suspend
    return False


def lasting(v):
    """the truth of a condition for an entry whose end is after now (None: not about that)"""
    v = ident(v)
    if v[0] == 'int':
        return bool(v[1])
    if v[0] == 'not':
        r = lasting(v[1])
        return None if r is None else not r
    if v[0] == 'lt':
        if ident(v[2]) == ('param', 'until') and is_now(v[1]):
            return True
        if ident(v[1]) == ('param', 'until') and is_now(v[2]):
            return False
    if v[0] == 'eq' and v[1][0] == 'discr' and v[2][0] == 'int':
        d = ident(v[1][1])
        if is_call(d, 'duration_since') and ident(d[2][0]) == ('param', 'until') and is_now(d[2][1]):
            return v[2][1] == 0
    if v[0] == 'eq' and ('param', 'until') in (ident(v[1]), ident(v[2])):
        return False
    return None


def retains_current(ctx, L, p, op):
    """the closure keeps every entry whose end is after now"""
    cl = [a for a in op.args if ident(a)[0] == 'closure']
    if not cl:
        return True
    st = State()
    st.objs[('X', 'k')] = ('param', 'key')
    st.objs[('X', 'v')] = ('param', 'until')
    try:
        outs = L.I.call_value(st, ident(cl[0]), [('ref', ('X', 'k'), (), False), ('ref', ('X', 'v'), (), True)], '', 0)
    except AnalysisError:
        return True
    for s, o in outs:
        if o[0] != 'ret':
            continue
        v = ident(o[1])
        q = Path(s, 'ret', v)
        if any(f[0] == 'b' and lasting(f[1]) is not None and lasting(f[1]) != b for f, b in s.facts.items()):
            continue        # the suspension is over on this path
        if any(f[0] == 'var' and b == 1 and is_call(f[1], 'duration_since') and ident(f[1][2][0]) == ('param', 'until') and is_now(f[1][2][1]) for f, b in s.facts.items()):
            continue
        if lasting(v) is not True and not (v[0] == 'call' and last(v) not in ('lt', 'gt', 'le', 'ge')):
            return False
    return True


# ------------------------------------------------------------------ liveness of the pool
def panic_reason(p):
    return str(p.value)[:100]


@rule('C17', 'Every abstract path of the pool\'s poll, in any state, for every command: an acquisition is answered through its own reply channel exactly once; after each command the channel is read again; the poll returns only NotReady and only right after the channel had nothing; no step can panic (options that can not be empty and counters below 2^64 are discharged). Every pooled call sends one acquisition with its own reply channel and waits for that reply.',
      ['fibers: a Receiver whose Sender is still held never ends and never fails'])
def c17(ctx):
    L = layout(ctx)
    P = L.P
    vs = set()
    for p in L.ps:
        vn = L.variant(p)
        got = [e for e in p.events if e[0] == 'recv']
        handled = [e for e in got if e[1] is not None]
        sends = [e for e in p.events if e[0] == 'call' and last(e[3]) == 'send' and 'oneshot' in e[1]]
        for e in p.events:
            if e[0] == 'dequeued':
                ctx.ob(e[1], 'in-order', vn or 'any', 'commands are put aside and not all handled in the order they arrived in', e[2], p)
        if p.kind == 'panic':
            ctx.ob(discharged(p, L), 'no-panic', vn or 'idle', 'the pool can panic: %s' % show_panic(p), '', p)
            continue
        if handled and p.kind == 'ret':
            vs.add(vn)
            again = [e for e in p.events if e[0] == 'again']
            ctx.ob(again, 'keeps-processing', vn or 'any', 'after a command the pool stops without reading its channel again', '', p)
        if p.kind == 'ret':
            ctx.ob(poll_kind(p) == 'parked', 'never-completes', vn or 'idle', 'the pool completes or fails', '', p)
            ctx.ob(got, 'reads-commands', 'poll', 'the pool parks without looking for commands', '', p)
        if vn == L.acquire and p.kind in ('ret', 'loopback'):
            mine = [e for e in sends if L.is_reply(e[2][0])]
            if p.kind == 'ret':
                ctx.ob(len(mine) == 1, 'answered-once', 'acquisition', 'an acquisition is answered %d times' % len(mine), mine[-1][5] if mine else '', p)
        elif p.kind == 'ret' and vn is not None:
            ctx.ob(not sends, 'answered-once', vn, 'a reply is sent although nothing was asked', sends[0][5] if sends else '', p)
    ctx.ob(L.acquire in vs, 'reachable', 'acquisition', 'acquisitions are not handled')
    ctx.ob(L.release in vs, 'reachable', 'release', 'returned connections are not handled')
    # the caller's side
    M, ps = machine.call_future(ctx, 'PooledRpcClient')
    for p in ps:
        acq = [(fs, e) for vn, fs, e in L.sent(p.events) if vn == L.acquire]
        if not ctx.ob(len(acq) == 1, 'asks-once', 'call', 'a call sends %d acquisitions' % len(acq), acq[-1][1][5] if acq else '', p):
            continue
        fs, e = acq[0]
        ch = [x for x in fs if contains(x, lambda y: y[0] == 'call' and last(y) == 'channel')]
        if not ch:
            ctx.note('reply channel of the acquisition not recognised')
            continue
        made = [y for y in subterms(ch[0]) if y[0] == 'call' and last(y) == 'channel'][0]
        first = [x for x in p.events if x[0] in ('await', 'pending')][:1]
        if first:
            ctx.ob(contains(first[0][1], lambda y: ceq(y, made)), 'waits-for-its-reply', 'call', 'the call waits for something else than the reply to its acquisition', '', p)


def show_panic(p):
    v = p.value
    if isinstance(v, tuple) and v and v[0] == 'assert':
        return ' '.join(str(x) for x in v[1:4])
    if isinstance(v, tuple) and len(v) > 3:
        return '%s in %s (%s)' % (v[1], v[3], v[2])
    return str(v)[:80]


def discharged(p, L):
    """a panic that can not happen"""
    v = p.value
    fs = list(p.state.facts.items())
    if v[0] == 'assert' and v[1].startswith('overflow'):
        o = [x for x in subterms(v) if x[0] == 'ovf']
        for x in o:
            if x[1] == 'Add' and ident(x[3])[0] == 'int' and ident(x[3])[1] < 1 << 16 and chain(x[2]) is not None:
                return True
        return False
    # an option that is empty only on this path
    for f, val in reversed(fs):
        if f[0] == 'var' and val == 0 and f[1][0] in ('call', 'next'):
            return nonempty(p, L, f[1])
        if f[0] == 'notvar' and f[1][0] in ('call', 'next'):
            return nonempty(p, L, f[1])
    return False


def nonempty(p, L, t):
    """the result t of a container operation is always Some here"""
    o = [op for op in ops(L.P, p.events) if canon(op.res) == t]
    if o and o[0].name in ('remove', 'remove_entry', 'get', 'get_mut') and o[0].args:
        op = o[0]
        key = ident(op.args[0])
        for x in subterms(key):
            if x[0] == 'next' or x[0] == 'call' and last(x) in ('first_key_value', 'last_key_value'):
                src = base_map(x)
                if src is not None and chain(src) == chain(op.map):
                    # found in the same container, and not removed since
                    tk = [q for q in ops(L.P, p.events) if chain(q.map) == chain(op.map) and q.name in TAKES + ('clear',) and q.i < op.i]
                    return not tk
                if src is not None and (container_type(L, src), op.kind) in (('age', 'conn'), ('conn', 'age')):
                    return True      # C15: the two list the same entries
        return False
    if o and o[0].name in FIRSTS + ENDS or t[0] == 'next' or is_call(t, 'min', 'max', 'last', 'next_back'):
        src = base_map(t)
        if src is not None and container_type(L, src) in ('age', 'conn'):
            known, over = size_facts(p, L)
            return any(b >= 0 for i, b in over) or excess_loop(p, L, L.ps) is not None or seen_nonempty(p, L)
    return False


ENDS = ('last_key_value', 'pop_last', 'back', 'pop_back', 'last', 'last_entry')


def seen_nonempty(p, L):
    """one of the two containers was found to have elements, and none was removed since"""
    allops = ops(L.P, p.events, 'conn') + ops(L.P, p.events, 'age')
    for op in allops:
        if op.name not in ('is_empty', 'len') or any(q.name in TAKES + ('clear',) and q.i > op.i for q in allops):
            continue
        cl = canon(op.res)
        for f, v in p.state.facts.items():
            if f[0] == 'b' and (f[1] == cl and op.name == 'is_empty' and v is False or
                                f[1][0] == 'eq' and v is False and ('int', 0) in f[1] and cl in f[1] or
                                f[1][0] == 'lt' and f[1][1] == ('int', 0) and f[1][2] == cl and v is True):
                return True
    return False


def base_map(t):
    """the container an element was taken from"""
    n = 0
    while n < 20:
        n += 1
        t = root(ident(t))
        if chain(t) is not None:
            return t
        if t[0] == 'call' and t[2]:
            t = t[2][0]
        elif t[0] in ('next', 'iterof'):
            t = t[1]
        elif t[0] == 'field':
            t = t[1]
        else:
            return None
    return None
