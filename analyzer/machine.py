"""Abstract runs of the crate's future state machines, obtained from its public entry points."""
from common import *

FUT = 'futures::Future'


def loops_with(P, b, tag, pred):
    """heads of the loops of b that contain a call for which pred holds"""
    if tag not in b:
        r = set()
        if b['local']:
            for h, blocks in P.loops(b).items():
                if any(b['blocks'][i]['t'][0] == 'call' and pred(b['blocks'][i]['t'][1]) for i in blocks):
                    r.add(h)
        b[tag] = frozenset(r)
    return b[tag]


def polls_in_loop(P):
    return lambda b: loops_with(P, b, 'pil', lambda c: c.get('trait') == FUT and c.get('method') == 'poll')


class Machine(Driver):
    """user code (procedures, requests, responses, handlers) stays opaque; encoding and decoding of heads are recorded"""

    def __init__(self, ctx, limit=6, **kw):
        self.ctx = ctx
        self.mks = {}
        Driver.__init__(self, ctx.P, unroll=[polls_in_loop(ctx.P)], limit=limit, **kw)
        for n in ('RpcRequestDeserializer', 'RpcRequestSerializer', 'RpcResponseDeserializer', 'RpcResponseSerializer'):
            p = self.find_adt(n)
            b = self.inherent(p, 'new') if p else None
            if b is not None:
                self.mks[b['path']] = n
        self.I.hooks.insert(0, self.mhook)

    def mhook(self, I, st, c, args, site, dty):
        n = self.mks.get(c['path']) or self.mks.get(c.get('rpath'))
        if n:
            st.emit(('mk', n, I.snap(st, args), site))
            return None
        tr, m = c.get('trait'), c.get('method')
        if tr == 'serde::Serialize' and m == 'serialize' or tr == 'serde::Deserialize' and m == 'deserialize':
            t = peel_ty(I.p, c['targs'][-1]) if c.get('targs') else {}
            nm = t.get('path', '').split('::')[-1]
            if nm in ('RpcRequestDeserializer', 'RpcRequestSerializer', 'RpcResponseDeserializer', 'RpcResponseSerializer'):
                sargs = I.snap(st, args)
                res = ('call', tr + '::' + m, sargs, st.fresh())
                st.emit(('code', m, nm, sargs, res, site))
                I.havoc_args(st, args, tr + '::' + m)
                return [(st, ('ret', res))]
        return None

    def body_of(self, tyname, fn):
        p = self.ctx.need(self.find_adt(tyname), 'type ' + tyname)
        return self.ctx.need(self.inherent(p, fn), '%s::%s' % (tyname, fn))


def done(ctx, M, outs):
    ps = paths(outs)
    ctx.track(M.I, ps)
    return ps


def resolve(M, st, f):
    """outcomes of a future as Result values"""
    out = []
    for s, o in resolve_future(M.I, st, f):
        if o[0] == 'ok':
            out.append((s, ('ret', ok(o[1]))))
        elif o[0] == 'err':
            out.append((s, ('ret', err(o[1]))))
        else:
            out.append((s, o))
    return out


# ------------------------------------------------------------------ server
def registered(ctx):
    """[(state, closure value)] handed to the routing table by RpcServerBuilder::register, and the register paths"""
    if 'registered' in ctx._memo:
        return ctx._memo['registered']
    got = []

    def cap(I, st, c, args, site, dty):
        if I.dry:
            return None
        for a in args[1:]:
            v = I.deref_all(st, a)
            if v[0] == 'closure' and c['path'].split('::')[-1] in ('insert', 'or_insert', 'push', 'or_insert_with') and is_handler(I, v):
                got.append((st.copy(), v))
        return None
    M = Machine(ctx, hooks=[])
    M.I.hooks.append(cap)
    b = M.body_of('RpcServerBuilder', 'register')
    st = State()
    o = ('X', 'builder')
    st.objs[o] = ('param', 'builder')
    outs = M.call(st, b, [('ref', o, (), True), ('param', 'handler'), ('param', 'procedure')])
    ps = done(ctx, M, outs)
    ctx._memo['registered'] = (M, got, ps)
    return ctx._memo['registered']


def is_handler(I, v):
    b = I.p.bodies.get(v[1])
    return b is not None and b['nargs'] >= 3


def server_closures(ctx):
    """runs of the registered HTTP handler closure to its final outcome"""
    if 'closures' in ctx._memo:
        return ctx._memo['closures']
    M, got, _ = registered(ctx)
    ctx.need(got, 'closure stored by RpcServerBuilder::register')
    outs = []
    st, v = got[0]
    st = st.copy()
    st.ev, st.stack = None, ()
    for s, o in M.I.call_value(st, v, [('param', 'url'), ('param', 'request')], '', 0):
        if o[0] != 'ret':
            outs.append((s, o))
        else:
            outs += resolve(M, s, o[1])
    ps = done(ctx, M, outs)
    ctx._memo['closures'] = ps
    return ps


def acceptor(ctx):
    """runs of RpcServer's poll from a started server; (machine, paths, spawned futures)"""
    if 'acceptor' in ctx._memo:
        return ctx._memo['acceptor']
    try:
        r = acceptor_run(ctx, [])
    except AnalysisError:
        # a connection is polled by the acceptor itself: its own runs are left out
        r = acceptor_run(ctx, [other_futures_opaque])
    ctx._memo['acceptor'] = r
    return r


def other_futures_opaque(I, st, c, args, site, dty):
    if c.get('trait') != FUT or c.get('method') != 'poll' or args[0][0] != 'ref' or args[0][1] == ('F', 'server'):
        return None
    if not I.p.bodies.get(c.get('inst'), {}).get('local'):
        return None
    f = I.load(st, args[0][1], args[0][2])
    sf = I.snapv(st, f)
    out = []
    for k in ('pending', 'ok', 'err'):
        s = st.copy()
        if k == 'pending':
            s.emit(('pending', sf, site, args[0][1], s.objs.get(args[0][1])))
            out.append((s, ('ret', ok(adt(ASYNC, 1)))))
        else:
            v = ('await', k, sf)
            s.emit(('await', sf, k, v))
            out.append((s, ('ret', ok(adt(ASYNC, 0, v)) if k == 'ok' else err(v))))
    return out


def acceptor_run(ctx, hooks):
    M = Machine(ctx, limit=4)
    M.I.hooks[:0] = hooks
    spawned = []

    def cap(I, st, c, args, site, dty):
        if c.get('method') in ('spawn', 'spawn_boxed', 'spawn_monitor') and not I.dry:
            spawned.append((st.copy(), args[1]))
        return None
    M.I.hooks.append(cap)
    start = M.body_of('RpcServerBuilder', 'start')
    outs = []
    for s, o in M.call(State(), start, [('param', 'builder'), ('param', 'spawner')]):
        if o[0] != 'ret':
            outs.append((s, o))
            continue
        srv = o[1]
        b = local_future_impl(M.I, srv[1]) if srv[0] == 'adt' else None
        if b is None:
            continue
        ob = ('F', 'server')
        s.objs[ob] = srv
        outs += M.I.run_body(s, b, [('ref', ob, (), True)], keep=True)
    ps = done(ctx, M, outs)
    return M, ps, spawned


def stop_at_next_read(I, st, c, args, site, dty):
    """the path ends where the next request would be read"""
    if c['path'].split('::')[-1] == 'read_request' and any(e[0] == 'await' and e[2] == 'ok' and is_call(e[1], 'read_request') for e in st.events()):
        a = I.snap(st, args)
        st.emit(('call', c['path'], a, ('call', c['path'], a, None), c, site))
        return [(st, ('stop', 'next read'))]
    return None


def connection(ctx, limit=5, stop=False):
    """runs of the per-connection future spawned by the server"""
    key = ('connection', limit, stop)
    if key in ctx._memo:
        return ctx._memo[key]
    A, _, spawned = acceptor(ctx)
    ctx.need(spawned, 'future spawned for an accepted connection')
    M = Machine(ctx, limit=limit)
    if stop:
        M.I.hooks.append(stop_at_next_read)
    st, f = spawned[0]
    st = st.copy()
    st.ev, st.stack = None, ()
    f = M.I.deref_all(st, f)
    b = local_future_impl(M.I, f[1]) if f[0] == 'adt' else None
    if b is None:
        outs = resolve(M, st, f)
    else:
        ob = ('F', 'conn')
        st.objs[ob] = f
        outs = M.I.run_body(st, b, [('ref', ob, (), True)], keep=True)
    ps = done(ctx, M, outs)
    ctx._memo[key] = (M, ps)
    return ctx._memo[key]


def second_read(p):
    """index of the read_request call after the first request that was read, or None"""
    seen = False
    for i, e in enumerate(p.events):
        if e[0] == 'await' and e[2] == 'ok' and is_call(e[1], 'read_request'):
            seen = True
        elif seen and e[0] == 'call' and match_name(e, 'read_request'):
            return i
    return None


def exchanges(ctx):
    """[(label, machine, paths)]: the connection's first exchange, and one from any later state of the loop"""
    if 'exchanges' in ctx._memo:
        return ctx._memo['exchanges']
    lim = 9
    M, ps = connection(ctx, lim, stop=True)
    out = [('first', M, ps)]
    A, _, spawned = acceptor(ctx)
    st0, f = spawned[0]
    f = M.I.deref_all(st0, f)
    ob = ('F', 'conn')
    starts = {}
    if f[0] == 'adt':
        for k in (3, 4, 5):
            if k == 5 and starts:
                break
            for p in connection(ctx, k)[1]:
                if p.kind == 'limit' and second_read(p) is None and any(e[0] == 'await' and is_call(e[1], 'read_request') for e in p.events) and ob in p.state.objs:
                    ev = [e for e in p.events if e[0] == 'code' and e[1] == 'serialize' or e[0] == 'await' and e[2] == 'ok' and e[1][0] == 'call' and e[1][1] == '<fn value>']
                    if not ev:
                        continue
                    v = generalise(M.I, f, p.state.objs[ob])
                    starts.setdefault(v, p)
    b = local_future_impl(M.I, f[1]) if f[0] == 'adt' else None
    for v, p in list(starts.items())[:4]:
        M2 = Machine(ctx, limit=lim)
        M2.I.hooks.append(stop_at_next_read)
        st = State()
        st.objs.update(st0.objs)
        st.objs[ob] = v
        st.n = p.state.n + 1 if hasattr(p.state, 'n') else 0
        qs = done(ctx, M2, M2.I.run_body(st, b, [('ref', ob, (), True)], keep=True))
        if any(second_read(q) is not None for q in qs):
            out.append(('later', M2, qs))
    ctx._memo['exchanges'] = out
    return out


def generalise(I, a, b, name='prev'):
    """b with everything that differs from a replaced by an unknown; enum variants with data are kept"""
    if a == b:
        return a
    if b[0] == 'adt' and b[3] and b[1] != BOX:
        fs = a[3] if a[0] == 'adt' and a[1] == b[1] and a[2] == b[2] and len(a[3]) == len(b[3]) else (None,) * len(b[3])
        return ('adt', b[1], b[2], tuple(generalise(I, x if x is not None else ('none',), y, '%s.%d' % (name, i)) for i, (x, y) in enumerate(zip(fs, b[3]))))
    if b[0] == 'adt' and not b[3] and b[1] in I.p.adts and any(v.get('fields') for v in I.p.adts[b[1]]['variants']):
        return b
    return ('param', name)


# ------------------------------------------------------------------ client
def call_future(ctx, tyname, limit=8):
    """(machine, paths) of <tyname>::call driven to completion"""
    key = ('call', tyname)
    if key in ctx._memo:
        return ctx._memo[key]
    M = Machine(ctx, limit=limit)
    b = M.body_of(tyname, 'call')
    st = State()
    o = ('X', 'client')
    st.objs[o] = ('param', 'client')
    outs = []
    for s, r in M.call(st, b, [('ref', o, (), True), ('param', 'request')]):
        if r[0] != 'ret':
            outs.append((s, r))
            continue
        f = r[1]
        s.emit(('mark', 'called'))
        b2 = local_future_impl(M.I, f[1]) if f[0] == 'adt' else None
        ctx.need(b2, 'future returned by %s::call' % tyname)
        ob = ('F', 'call')
        s.objs[ob] = f
        outs += M.I.run_body(s, b2, [('ref', ob, (), True)], keep=True)
    ps = done(ctx, M, outs)
    ctx._memo[key] = (M, ps)
    return ctx._memo[key]


def client_runs(ctx):
    return call_future(ctx, 'RpcClient')[1]


# ------------------------------------------------------------------ pool
STREAM = 'futures::Stream'


def polls_stream_in_loop(P):
    def heads(b):
        # with a loop that receives commands, also the ones that work off a queue of them
        return loops_with(P, b, 'psil', lambda c: c.get('trait') == STREAM) and loops_with(P, b, 'all', lambda c: c.get('trait') == STREAM or queue_op(c))
    return heads


def queue_op(c):
    return c.get('trait') == 'std::iter::Iterator' and c.get('method') == 'next' or c.get('path', '').split('::')[-1] in ('pop', 'pop_front', 'pop_back', 'remove', 'swap_remove')


def pool_runs(ctx):
    """(machine, paths) of RpcClientPool's poll in any state, from one received command to the next read of the channel"""
    if 'pool' in ctx._memo:
        return ctx._memo['pool']
    M = Machine(ctx, limit=6)
    M.I.unroll.append(polls_stream_in_loop(ctx.P))

    def rx(I, st, c, args, site, dty):
        if c.get('trait') != STREAM or c.get('method') != 'poll':
            return None
        rd = [e for e in st.events() if e[0] == 'recv']
        out = []
        s = st.copy()
        s.emit(('recv', None, site))
        if rd:
            s.emit(('again',))
            return [(s, ('ret', ok(adt(ASYNC, 1))))]
        s.emit(('pending', I.snapv(s, args[0]), site, args[0][1] if args[0][0] == 'ref' else None, None))
        out.append((s, ('ret', ok(adt(ASYNC, 1)))))
        cmd = ('param', 'command')
        s = st.copy()
        s.emit(('recv', cmd, site))
        out.append((s, ('ret', ok(adt(ASYNC, 0, some(cmd))))))
        return out
    M.I.hooks.insert(0, rx)

    def queue(I, st, c, args, site, dty):
        """commands that were put aside before they are handled: the queue holds the one received, or none"""
        if not queue_op(c) or not args or ctx.P.types[dty].get('path') != OPT or not ctx.P.tys(dty).endswith('Command>'):
            return None
        q = I.snapv(st, args[0])
        cmd = ('param', 'command')
        if contains(q, lambda x: x == cmd):
            n = c['path'].split('::')[-1]
            names = [x[1].split('::')[-1].split(':')[-1] for x in subterms(q) if x[0] in ('call', 'upd', 'adt') and isinstance(x[1], str)]
            names += [n] if n != 'remove' or len(args) < 2 or I.snapv(st, args[1]) != ('int', 0) else []
            turns = sum(x in ('rev', 'reverse', 'push_front', 'pop', 'pop_back', 'next_back') for x in names)
            mixed = [x for x in names if x in ('insert', 'swap', 'swap_remove', 'remove', 'take', 'skip', 'step_by', 'take_while', 'skip_while', 'filter', 'truncate', 'retain', 'rotate_left', 'rotate_right') or x.startswith(('sort', 'dedup'))]
            s = st.copy()
            if any(e[0] == 'dequeued' for e in st.events()):
                return [(s, ('ret', adt(OPT, 0)))]
            fifo = turns % 2 == 0 and not mixed
            s.emit(('dequeued', fifo, site))
            return [(s, ('ret', some(cmd)))]
        if any(e[0] == 'recv' for e in st.events()) and not contains(q, lambda x: x[0] == 'param'):
            return [(st.copy(), ('ret', adt(OPT, 0)))]
        return None
    M.I.hooks.insert(0, queue)
    M.replies = []

    def cap(I, st, c, args, site, dty):
        if c['path'].split('::')[-1] == 'send' and 'oneshot' in c['path'] and not I.dry:
            M.replies.append((st.copy(), args, site))
        return None
    M.I.hooks.append(cap)
    p = ctx.need(M.find_adt('RpcClientPool'), 'type RpcClientPool')
    b = ctx.need(local_future_impl(M.I, p), 'Future for RpcClientPool')
    st = State()
    ob = ('F', 'pool')
    st.objs[ob] = ('param', 'pool')
    ps = done(ctx, M, M.I.run_body(st, b, [('ref', ob, (), True)], keep=True))
    ctx._memo['pool'] = (M, ps)
    return ctx._memo['pool']
