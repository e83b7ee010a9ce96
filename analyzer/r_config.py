"""C28: servers, pools and clients run with what they were made with and set to."""
from common import *
from rules import rule
from r_router import ident, last
import machine
from r_pool import layout, chain, field_chain, replies, client_address, POOL
from r_client import intended_server

GIVEN = ('param', 'given')


def leaves(I, v, pre=()):
    """positions of a value below its structs and enums -> content"""
    v0 = ident(v)
    if v0[0] == 'adt' and v0[3] and (v0[1] == '()' or v0[1] in I.p.adts):
        names = [str(i) for i in range(len(v0[3]))] if v0[1] == '()' else I.p.adts[v0[1]]['variants'][v0[2]]['fields']
        out = {}
        for n, x in zip(names, v0[3]):
            out.update(leaves(I, x, pre + (str(n),)))
        return out
    return {pre: v}


def fchain(t, base):
    c = field_chain(t, base)
    return None if c is None else tuple(str(x) for x in c)


def at(ls, term):
    return {k for k, v in ls.items() if ident(v) == term}


def exploded(I, path, base, depth=0):
    """a value of a struct with every field a term of its own"""
    a = I.p.adts.get(path)
    if a is None or a['kind'] != 'struct':
        return base
    return ('adt', path, 0, tuple(('param', '%s.%s' % (base[1], n)) for n in a['variants'][0]['fields']))


def method(ctx, M, ty, fn, obj, args, mut=True, st=None):
    """[(state, receiver afterwards, result)] of the returning paths of a method run on the value `obj`"""
    st = st.copy() if st else State()
    st.stack = ()
    o = ('X', 'obj')
    st.objs[o] = obj
    out = []
    for s, r in M.call(st, M.body_of(ty, fn), [('ref', o, (), mut)] + args):
        if r[0] == 'ret':
            out.append((s, M.I.deref_all(s, s.objs[o]), M.I.snapv(s, M.I.deref_all(s, r[1]))))
    return ctx.need(out, 'paths of %s::%s' % (ty, fn))


def value(ctx, M, ty, fn, args):
    out = [(s, r[1]) for s, r in M.call(State(), M.body_of(ty, fn), args) if r[0] == 'ret']
    return ctx.need(out, 'paths of %s::%s' % (ty, fn))


@rule('C28', 'Constructors, setters and handle-making functions are run on arbitrary arguments and their results followed as provenance terms: the address a builder was made for is the one every listener of the started server is bound to and is left alone by every other builder method; the tasks of accepted connections run on the given spawner with the routing table that register fills; the default pool size is 1024; both kinds of clients connect to, or ask for, the address they were made for; each duration setter stores the value it is given and changes no other field, and no command changes a setting; handles, clients and failure reports send on the channel whose receiving end the pool reads.',
      ['fibers binds the address it is given, and both ends of one fibers channel() call belong together'])
def c28(ctx):
    server(ctx)
    pool(ctx)
    channel(ctx)
    client_address(ctx, layout(ctx))
    intended_server(ctx)


def server(ctx):
    M = machine.Machine(ctx)
    P = ctx.P
    new = value(ctx, M, 'RpcServerBuilder', 'new', [GIVEN])
    kept = None
    for s, v in new:
        c = at(leaves(M.I, v), GIVEN)
        kept = c if kept is None else kept & c
    ctx.ob(kept, 'listens-on-its-address', 'new', 'the builder does not keep the address it is made for')
    bp = M.find_adt('RpcServerBuilder')
    # the other methods of the builder leave the address alone; what register changes is the routing table
    routes, others = set(), []
    for k, b in sorted(P.bodies.items()):
        fn = b['path'].split('::')[-1]
        if not b['local'] or b.get('trait') or fn in ('new', 'start') or '{' in b['path'] or M.inherent(bp, fn) is not b:
            continue
        if not b['nargs'] or P.types[b['locals'][1]['ty'] if isinstance(b['locals'][1], dict) else b['locals'][1]].get('k') not in ('ref', None):
            continue
        e = exploded(M.I, bp, ('param', 'builder'))
        st = State()
        o = ('X', 'obj')
        st.objs[o] = e
        before = leaves(M.I, e)
        args = [('param', 'a%d' % i) for i in range(b['nargs'] - 1)]
        for s, r in M.call(st, b, [('ref', o, (), True)] + args):
            if r[0] != 'ret':
                continue
            after = leaves(M.I, s.objs[o])
            for c, x in before.items():
                same = [fchain(y, x) == d[len(c):] for d, y in after.items() if d[:len(c)] == c]
                if any(c == k[:len(c)] for k in kept or ()):
                    same = [fchain(y, x) == d[len(c):] for d, y in after.items() if d[:len(c)] == c and any(d == k[:len(d)] for k in kept)]
                    ctx.ob(same and all(same), 'listens-on-its-address', fn, '%s changes the address the builder was made for' % fn)
                elif not (same and all(same)):
                    if fn == 'register':
                        routes.add(c)
                    else:
                        others.append((fn, c))
    ctx.ob(routes, 'serves-what-was-registered', 'register', 'registering changes nothing in the builder')
    for fn, c in others:
        ctx.ob(c not in routes, 'serves-what-was-registered', fn, '%s changes the handlers that were registered' % fn)
    A, ps, spawned = machine.acceptor(ctx)
    B = ('param', 'builder')
    nbind = nsp = 0
    for p in ps:
        if p.kind == 'panic':
            continue
        for e in p.events:
            if e[0] != 'call':
                continue
            if last(e[3]) == 'bind' and 'TcpListener' in e[1]:
                nbind += 1
                ctx.ob(fchain(e[2][0], B) in (kept or ()), 'listens-on-its-address', 'bind', 'the server listens on %s, not on the address its builder was made for' % show(e[2][0])[:80], e[5], p)
            elif e[4].get('method') in ('spawn', 'spawn_boxed', 'spawn_monitor'):
                nsp += 1
                ctx.ob(contains(e[2][0], lambda x: x == ('param', 'spawner')), 'runs-on-its-spawner', 'spawn', 'a connection is spawned on %s' % show(e[2][0])[:80], e[5], p)
                f = e[2][1]
                ctx.ob(contains(f, lambda x: (fchain(x, B) or ())[:1] and any(r[:1] == fchain(x, B)[:1] for r in routes)), 'serves-what-was-registered', 'spawn', 'a connection is served without the handlers registered with the builder', e[5], p)
    ctx.ob(nbind, 'listens-on-its-address', 'reachable', 'a started server never listens')
    ctx.ob(nsp, 'runs-on-its-spawner', 'reachable', 'a started server never spawns')


def pool(ctx):
    L = layout(ctx)
    M, I = L.M, L.I
    L.configured(L.size, 'with_pool_size')
    for s, v in value(ctx, M, 'RpcClientPool', 'new', []):
        ls = leaves(I, v)
        for c in L.size:
            ctx.ob(c in ls and ident(ls[c]) == ('int', 1024), 'default-size', 'new', 'the default pool size is %s, not 1024' % show(ls.get(c, ('?',)))[:60])
    pp = M.find_adt('RpcClientPool')
    e = exploded(I, pp, ('param', 'pool'))
    before = leaves(I, e)
    own = {}
    for fn in ('set_suspended_duration', 'set_connect_timeout'):
        for s, o, r in method(ctx, M, 'RpcClientPool', fn, e, [GIVEN]):
            after = leaves(I, o)
            hit = at(after, GIVEN)
            ctx.ob(hit, 'set-as-given', fn, 'on some path %s does not store the value it is given' % fn)
            own.setdefault(fn, set()).update(hit)
            for c, x in before.items():
                inside = {d: y for d, y in after.items() if d[:len(c)] == c}
                inside = {d: y for d, y in inside.items() if d not in hit}
                if not inside and any(d[:len(c)] == c for d in hit):
                    continue
                ctx.ob(inside and all(fchain(y, x) == d[len(c):] for d, y in inside.items()), 'sets-nothing-else', '%s/%s' % (fn, '.'.join(c)), '%s also changes %s' % (fn, '.'.join(c)))
    a, b = own.get('set_suspended_duration', set()), own.get('set_connect_timeout', set())
    ctx.ob(not a & b, 'sets-nothing-else', 'shared', 'both durations are kept in the same place: %s' % ', '.join('.'.join(c) for c in a & b))
    for p in L.ps:
        v = p.state.objs.get(('F', 'pool'))
        if v is None or v == POOL or p.kind == 'panic':
            continue
        ls = leaves(I, v)
        for what, cs in (('size', L.size), ('suspended duration', L.suspend), ('connect timeout', L.timeout)):
            for c in cs:
                if c in ls:
                    ctx.ob(ident(ls[c])[0] == 'field' and tuple(str(x) for x in chain(ls[c]) or ('?',)) == c, 'settings-are-fixed', what, 'handling a command changes the %s to %s' % (what, show(ls[c])[:60]), '', p)


def end(t):
    """(channel() call, index) of which t is an end"""
    t = ident(t)
    if t[0] == 'field' and ident(t[1])[0] == 'call' and last(ident(t[1])).endswith('channel'):
        return ident(t[1]), str(t[3])
    return None


def channel(ctx):
    L = layout(ctx)
    M, I = L.M, L.I
    read = set()
    for p in L.ps:
        for e in p.events:
            if e[0] == 'pending':
                c = chain(e[1])
                if c is not None:
                    read.add(c)
    for s0, v in value(ctx, M, 'RpcClientPool', 'with_pool_size', [GIVEN]):
        ls = leaves(I, v)
        chans = {end(ls[c])[0] for c in read if c in ls and end(ls[c])}
        if not ctx.ob(chans, 'own-channel', 'pool', 'the pool does not read the channel it was made with'):
            return
        mine = {c for c, x in ls.items() if end(x) and end(x)[0] in chans and c not in read}

        def is_tx(x):
            return end(x) is not None and end(x)[0] in chans
        for s, o, h in method(ctx, M, 'RpcClientPool', 'handle', v, [], False, s0):
            hl = leaves(I, h)
            tx = {c for c, x in hl.items() if is_tx(x)}
            ctx.ob(tx, 'own-channel', 'handle', 'a handle does not reach the pool it was taken from')
            for s2, o2, cl in method(ctx, M, 'RpcClientPoolHandle', 'client', h, [('param', 'wanted')], False, s):
                cc = {c for c, x in leaves(I, cl).items() if is_tx(x)}
                ctx.ob(cc, 'own-channel', 'client', 'a client does not reach the pool of its handle')
                M2, ps = machine.call_future(ctx, 'PooledRpcClient')
                for p in ps:
                    for vn, fs, e in L.sent(p.events):
                        ctx.ob(fchain(e[2][0], ('param', 'client')) in cc, 'own-channel', 'send/%s' % vn, 'the command %s is sent on %s, not to the pool of the client' % (vn, show(e[2][0])[:60]), e[5], p)
        for start, args, n, res, site in replies(ctx):
            for q, o in res:
                for vn, fs, e in L.sent(q.events):
                    ctx.ob(chain(e[2][0]) in mine, 'own-channel', 'report/%s' % vn, 'the command %s is sent on %s, not to the pool itself' % (vn, show(e[2][0])[:60]), e[5], q)
