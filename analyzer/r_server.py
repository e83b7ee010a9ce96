"""C09, C10, C11, C23: the server's side of an exchange, and the acceptor."""
from common import *
from rules import rule
from r_router import ident, last, ceq, variant_fact, request_of, statuses, payload, unfit
import machine

DRAIN = ('read_all_bytes',)
OTHER_DRAIN = ('read_all_str', 'read_to_end', 'read_exact', 'async_read', 'read')
READY, NOTREADY = 0, 1


def is_ok(v):
    return v is not None and v[0] == 'adt' and v[1] == RES and v[2] == 0


def is_errv(v):
    return v is not None and v[0] == 'adt' and v[1] == RES and v[2] == 1


def poll_kind(p):
    """'ready' | 'parked' | 'err' | None of a returned Poll value"""
    if p.kind != 'ret':
        return None
    v = p.value
    if is_errv(v):
        return 'err'
    if is_ok(v) and v[3][0][0] == 'adt' and v[3][0][1] == ASYNC:
        return 'ready' if v[3][0][2] == READY else 'parked'
    return None


def parked(ctx, M, ps, ob, who):
    """a poll that parks does so on a pending future, and leaves it (and everything else) in place for the next poll"""
    n = 0
    for p in ps:
        if poll_kind(p) != 'parked':
            continue
        n += 1
        pend = [(i, e) for i, e in enumerate(p.events) if e[0] == 'pending']
        if not ctx.ob(pend, 'parks-on-a-pending-future', who, 'the poll parks although nothing it polled is pending: no wake-up follows', '', p):
            continue
        i, e = pend[-1]
        ctx.ob(not any(x[0] == 'await' for x in p.events[i:]), 'parks-on-a-pending-future', who + '/last', 'the poll parks although the last future it polled was ready', e[2], p)
        tail = len(pend)
        while tail > 1 and pend[tail - 2][0] == pend[tail - 1][0] - 1:
            tail -= 1
        for i, e in pend[tail - 1:]:
            if e[3][0] == 'F':
                ctx.ob(p.state.objs.get(e[3]) == e[4], 'parked-state-kept', who, 'the state is changed between a pending poll and parking', e[2], p)
        if e[3] != ob:
            ctx.ob(contains(M.I.snapv(p.state, p.state.objs.get(ob, ('undef', ob))), lambda x: x == e[1]), 'parked-state-kept', who + '/moved', 'the pending future is lost when the poll parks', e[2], p)
    return n


# ------------------------------------------------------------------ exchanges on a connection
class Exchange:
    def __init__(self, p):
        self.p = p
        self.req = None
        for i, e in enumerate(p.events):
            if e[0] == 'await' and e[2] == 'ok' and is_call(e[1], 'read_request'):
                self.req, self.i = e[3], i
                break
        if self.req is None:
            return
        self.j = machine.second_read(p)
        hi = self.j if self.j is not None else len(p.events)
        self.ev = p.events[self.i + 1:hi]
        self.next_conn = p.events[self.j][2][0] if self.j is not None else None
        self.made = []       # responses produced: (event, response value)
        for e in self.ev:
            if e[0] == 'code' and e[1] == 'serialize' and e[2] == 'RpcResponseSerializer':
                self.made.append(e)
            elif e[0] == 'call' and e[1] == '<fn value>' and contains(('t',) + tuple(e[2]), lambda x: x == self.req):
                self.made.append(e)


def exchanges(ctx):
    out = []
    for label, M, ps in machine.exchanges(ctx):
        for p in ps:
            x = Exchange(p)
            if x.req is not None:
                x.label, x.M = label, M
                out.append(x)
    return ctx.need(out, 'paths of the connection future that read a request')


def written(t):
    """a connection value -> (response value, [bodies written], number of awaits)"""
    n, bodies = 0, []
    while True:
        t = nv(t)
        if t[0] == 'await' and t[1] == 'ok':
            t, n = t[2], n + 1
        elif t[0] == 'fut' and len(t) > 2 and isinstance(t[2], tuple):
            t = t[2]
        elif t[0] == 'call' and last(t) == 'write_all_bytes':
            bodies.append((t[2][1], n))
            t = t[2][0]
        else:
            return t, bodies, n


def comes_from(t, e):
    """the response value t is the product of the response event e"""
    if e[0] == 'call':
        return contains(t, lambda x: x[0] == 'await' and x[1] == 'ok' and nvd(x[2]) == nvd(e[3]))
    return contains(t, lambda x: x[0] == 'call' and x[1].startswith('miasht::server::ResponseBuilder') and last(x) == 'finish')


ENDS = ('into_body_reader',)
ENCODERS = ('serde::', 'serdeconv::')


def failure_cause(p, lo):
    """what made the exchange fail: a failed await, an unreadable body, an encoding failure"""
    for e in p.events[lo:]:
        if e[0] == 'await' and e[2] == 'err':
            return 'await'
    for e in p.events[lo:]:
        if e[0] == 'call' and (last(e[3]) in ENDS or e[1].startswith(ENCODERS)) and variant_fact(p, e[3]) == 1:
            return 'body' if last(e[3]) in ENDS else 'encode'
        if e[0] == 'code' and e[1] == 'serialize':
            if variant_fact(p, e[4]) == 1:
                return 'encode'
            # the serializer was given nothing to send
            for k, v in p.state.facts.items():
                if k[0] in ('var', 'b', 'is', 'notvar') and contains(k[1], lambda x: x[0] == 'adt' and x[1].endswith('RpcResponseSerializer')):
                    return 'encode'
    return None


@rule('C09', 'Every abstract path of the connection future over one exchange (the first one and one from an arbitrary later loop state) and every path of the registered handler closure: between two reads exactly one response is produced from the request that was read, and the connection of the next read is the awaited result of writing that very response; a connection ends after a request was read only where the body could not be read or a response not be encoded or written; the RPC handler is called at most once, with the awaited result of read_body of the decoded request, its awaited result is what is encoded; an undecodable head is answered 400 without a handler call; a parked poll keeps its state.',
      ['miasht: a Connection is obtained only by awaiting a Response, which flushes its head', 'futures 0.1 combinators; HandleRpc futures never fail (NeverFail cannot be built)'])
def c09(ctx):
    xs = exchanges(ctx)
    n2 = 0
    for x in xs:
        p, site = x.p, ''
        if x.made:
            site = x.made[-1][5]
        ctx.ob(len(x.made) <= 1, 'one-response', x.label + '/at-most-one', '%d responses are produced for one request' % len(x.made), site, p)
        if x.j is not None:
            n2 += 1
            s2 = p.events[x.j][5]
            if ctx.ob(len(x.made) == 1, 'one-response', x.label + '/before-next', 'the next request is read after %d responses' % len(x.made), s2, p):
                r, _, n = written(x.next_conn)
                ctx.ob(n >= 1 and comes_from(r, x.made[0]), 'answered-before-next', x.label, 'the next request is read from %s, not from the connection on which the response was written' % show(r)[:100], s2, p)
        k = poll_kind(p)
        lastread = [e for e in p.events if e[0] == 'await' and is_call(e[1], 'read_request')][-1]
        if k == 'ready':
            ctx.ob(lastread[2] == 'err', 'request-not-dropped', x.label + '/quiet', 'the connection ends quietly although a request was read and not answered', '', p)
        elif k == 'err' and x.j is None:
            ctx.ob(failure_cause(p, x.i + 1), 'request-not-dropped', x.label + '/error', 'the connection is given up although the request could be answered', '', p)
        for e in x.ev:
            if e[0] == 'call' and e[1] == '<fn value>' and e in x.made:
                ctx.ob(sum(1 for a in e[2] if ident(a) == ident(x.req)) == 1, 'handler-request', x.label, 'the handler is not given the request that was read', e[5], p)
    ctx.ob(n2, 'one-response', 'next-read', 'no path reads a further request from a connection')
    for label, M, ps in machine.exchanges(ctx):
        parked(ctx, M, ps, ('F', 'conn'), 'connection/' + label)
        if any(e[0] == 'call' and is_call(e[3], 'path_segments') for p in ps for e in p.events):
            for p in ps:
                u = unfit(ctx, M.I, p)
                ctx.ob(u is None, 'fitting-error', label, u and u[1], u and u[0] or '', p)
    closures(ctx)


def closures(ctx):
    ps = machine.server_closures(ctx)
    answered = refused = 0
    for p in ps:
        ev = p.events
        hr = [e for e in ev if e[0] == 'call' and match_name(e, 'HandleRpc::handle_rpc')]
        de = [e for e in ev if e[0] == 'code' and e[1] == 'deserialize' and e[2] == 'RpcRequestDeserializer']
        rb = [e for e in ev if e[0] == 'call' and match_name(e, 'RpcRequest::read_body')]
        en = [e for e in ev if e[0] == 'code' and e[1] == 'serialize' and e[2] == 'RpcResponseSerializer']
        if not ctx.ob(len(hr) <= 1, 'handler-once', 'at-most-once', 'the handler is called %d times for one request' % len(hr), hr[-1][5] if hr else '', p):
            continue
        dr = variant_fact(p, de[0][4]) if de else None
        for h in hr:
            i = ev.index(h)
            a = ident(h[2][1])
            w = [e for e in ev[:i] if e[0] == 'await' and e[2] == 'ok' and rb and e[1] == rb[0][3]]
            ok1 = ctx.ob(len(de) == 1 and dr == 0, 'decoded-before-handler', 'head', 'the handler is called although the head was not decoded', h[5], p)
            ok2 = ctx.ob(len(rb) == 1 and w, 'decoded-before-handler', 'body', 'the handler is called before the body was read into the request', h[5], p)
            if ok1 and ok2:
                ctx.ob(projection_of(a, w[0][3]), 'decoded-before-handler', 'value', 'the handler is given %s, not the request completed by read_body' % show(a)[:100], h[5], p)
                src = ident(rb[0][2][0])
                ctx.ob(payload(rb[0][2][0]) is not None and ceq(payload(rb[0][2][0]), de[0][4]) or src == ('field', de[0][4], 'Ok', '0'), 'decoded-before-handler', 'chain', 'read_body completes %s, not the decoded head' % show(src)[:100], rb[0][5], p)
            ctx.ob(contains(h[2][0], lambda x: x == ('param', 'handler')), 'own-handler', 'handler', 'the handler called is %s, not the registered one' % show(h[2][0])[:100], h[5], p)
        if p.kind == 'ret' and is_ok(p.value):
            if not ctx.ob(len(en) == 1, 'one-response', 'closure', '%d responses are encoded' % len(en), en[-1][5] if en else '', p):
                continue
            val = ident(en[0][3][0])
            if dr == 1:
                refused += 1
                ctx.ob(not hr, 'undecodable-400', 'no-handler', 'the handler is called for a request that cannot be decoded', hr[0][5] if hr else '', p)
                st = statuses(ctx, en[0])
                if len(st) == 1:
                    ctx.ob(st == {'BadRequest'}, 'undecodable-400', 'status', 'a request that cannot be decoded is answered %s' % sorted(st), en[0][5], p)
                else:
                    ctx.note('C09: status of the answer to an undecodable request not recognised')
            elif dr == 0:
                answered += 1
                if ctx.ob(len(hr) == 1, 'handler-once', 'exactly-once', 'a decoded request is answered without calling the handler', en[0][5], p):
                    res = [e for e in ev if e[0] == 'await' and e[2] == 'ok' and e[1] == hr[0][3]]
                    ctx.ob(res and any(ceq(val, e[3]) for e in res), 'handler-result', 'closure', 'what is encoded is %s, not the result of the handler' % show(val)[:100], en[0][5], p)
        elif p.kind == 'ret' and is_errv(p.value):
            if dr == 1:
                ctx.ob(failure_cause(p, ev.index(de[0]) + 1), 'request-not-dropped', 'closure/undecodable', 'a request that cannot be decoded ends the connection instead of being answered', de[0][5], p)
            else:
                ctx.ob(failure_cause(p, 0), 'request-not-dropped', 'closure', 'the connection is given up although the request could be answered', '', p)
    ctx.ob(answered, 'handler-once', 'reachable', 'no path of the registered closure answers a request')
    ctx.ob(refused, 'undecodable-400', 'reachable', 'no path of the registered closure refuses an undecodable request')


def projection_of(t, base):
    t = ident(t)
    while t[0] == 'field' and t != base:
        t = ident(t[1])
    return ceq(t, base)


# ------------------------------------------------------------------ C10
@rule('C10', 'Every call that starts a response on a request\'s connection (miasht Request::finish), on every path of the connection future and of the registered closure: the request value it consumes is what came back from an awaited read of the whole body of the request that was read; where the user\'s read_body took part, the reader drained afterwards is the one it gave back.',
      ['miasht: read_all_bytes on a BodyReader reads up to the announced end of the body'])
def c10(ctx):
    n = 0
    groups = [('closure', None, p, ('param', 'request')) for p in machine.server_closures(ctx)]
    groups += [(x.label, x.M, x.p, x.req) for x in exchanges(ctx)]
    for label, M, p, req in groups:
        ev = p.events
        for i, e in enumerate(ev):
            if e[0] != 'call' or not e[1].startswith('miasht::server::Request') or last(e[3]) != 'finish':
                continue
            n += 1
            a = e[2][0]
            if label != 'closure' and not contains(a, lambda x: x == req):
                continue
            drains = [x for x in subterms(a) if x[0] == 'await' and x[1] == 'ok' and x[2][0] == 'call' and last(x[2]) in DRAIN]
            site = e[5]
            if not ctx.ob(drains, 'body-drained', label, 'the response is started on %s without reading the body to its end' % show(a)[:100], site, p):
                continue
            d = drains[0]
            r = d[2][2][0]
            ctx.ob(contains(r, lambda x: x == req), 'body-drained', label + '/own', 'the body that is read is not that of the request', site, p)
            ctx.ob(contains(r, lambda x: x[0] == 'call' and last(x) == 'into_body_reader'), 'body-drained', label + '/reader', 'what is read to its end is %s, not the body' % show(r)[:100], site, p)
            lim = [x for x in subterms(a) if x[0] == 'call' and last(x) in ('take', 'max_length', 'limit')]
            ctx.ob(not lim, 'body-drained', label + '/whole', 'only a part of the body is read: %s' % (show(lim[0])[:80] if lim else ''), site, p)
            rb = [x for x in ev[:i] if x[0] == 'call' and match_name(x, 'RpcRequest::read_body')]
            if rb:
                ctx.ob(contains(r, lambda x: x[0] == 'await' and x[1] == 'ok' and x[2] == rb[0][3]), 'body-drained', label + '/rest', 'the rest of the body that read_body left is not read', site, p)
    ctx.at_least(2, n, 'starts of a response')


# ------------------------------------------------------------------ C11
def bodyid(t):
    """the object whose bytes a body term denotes"""
    while True:
        u = nv(t)
        if u[0] == 'cast':
            u = u[3]
            if u[0] == 'field' and u[3] in ('0', 'pointer'):
                u = u[1]
        elif u[0] == 'adt' and (u[1] == BOX or u[1].split('::')[-1] in ('Unique', 'NonNull')) and u[3]:
            u = u[3][0]
        elif u[0] == 'call' and last(u) in ('as_ref', 'deref', 'borrow', 'as_slice', 'as_bytes') and u[2]:
            u = u[2][0]
        if u == t:
            return t
        t = u


def len_of(t):
    """t is the length of X (cast losslessly) -> X"""
    t = nv(t)
    while t[0] == 'cast' and lossless(t[1], t[2]):
        t = nv(t[3])
    if t[0] == 'len':
        return t[1]
    if t[0] == 'call' and last(t) == 'len':
        return t[2][0]
    return None


def content_lengths(p, lo, builder):
    out = []
    for i, e in enumerate(p.events):
        if i >= lo and e[0] == 'call' and last(e[3]) in ('add_header', 'add_raw_header') and e[1].startswith('miasht::') and builder in e[1]:
            h = nv(e[2][1])
            if h[0] == 'adt' and h[1].endswith('headers::ContentLength'):
                out.append((i, e, h[3][0]))
            elif last(e[3]) == 'add_raw_header' and contains(h, lambda x: x[0] == 'str' and x[1].lower() == 'content-length'):
                out.append((i, e, None))
    return out


@rule('C11', 'Every path on which a response is encoded: exactly one Content-Length is added, to the builder that is finished, and its value is the length of the very body object handed on with the response; on the connection, write_all_bytes gets that body and nothing else is written, except exactly on paths where the method of this request is known to be HEAD; wrapper types of the body denote the same bytes.',
      ['miasht: write_all_bytes writes the whole AsRef<[u8]> view of its argument; AsRef of a body returns the same bytes each time'])
def c11(ctx):
    n = 0
    done = []
    for p in machine.server_closures(ctx):
        if p.kind == 'ret' and is_ok(p.value):
            done.append(('closure', p, None, 0, p.value[3][0]))
    for x in exchanges(ctx):
        if len(x.made) == 1 and x.made[0][0] == 'code':
            done.append((x.label, x.p, x, x.i, None))
    for label, p, x, lo, val in done:
        ev = p.events
        en = [i for i, e in enumerate(ev) if i >= lo and e[0] == 'code' and e[1] == 'serialize' and e[2] == 'RpcResponseSerializer']
        fin = [i for i, e in enumerate(ev) if i >= lo and e[0] == 'call' and e[1].startswith('miasht::server::ResponseBuilder') and last(e[3]) == 'finish']
        if not en or not fin:
            continue
        n += 1
        hi = x.j if x is not None and x.j is not None else len(ev)
        cl = [c for c in content_lengths(p, lo, 'ResponseBuilder') if c[0] < hi]
        fin = [i for i in fin if i < hi]
        site = ev[fin[0]][5] if fin else ''
        if not fin or not ctx.ob(len(cl) == 1, 'content-length', label + '/once', '%d content lengths are announced' % len(cl), site, p):
            continue
        i, e, v = cl[0]
        ctx.ob(i < fin[0], 'content-length', label + '/order', 'the content length is added after the head was finished', e[5], p)
        tgt = nvd(e[2][0])
        ctx.ob(contains(nvd(ev[fin[0]][2][0]), lambda y: y == tgt or stem(y) == stem(tgt)), 'content-length', label + '/builder', 'the content length is added to another response', e[5], p)
        b = len_of(v) if v is not None else None
        if b is None:
            if v is not None and (nv(v)[0] in ('int', 'op', 'bin') or contains(v, lambda y: y[0] in ('int', 'len') or y[0] == 'call' and last(y) == 'len')):
                ctx.ob(False, 'content-length', label + '/value', 'the announced length is %s' % show(v)[:100], e[5], p)
            else:
                ctx.note('C11: announced length not recognised: %s' % show(v or ('?',))[:100])
            continue
        if val is not None:
            comps = val[3] if val[0] == 'adt' and val[1] == '()' else ()
            bodies = [c for c in comps if not contains(c, lambda y: y == ev[fin[0]][3])]
            if len(bodies) == 1:
                ctx.ob(same_body(b, bodies[0], p.state, machine.registered(ctx)[0].I), 'content-length', label + '/body', 'the announced length is that of %s, but the body handed on is %s' % (show(bodyid(b))[:60], show(bodyid(bodies[0]))[:60]), e[5], p)
            # the body is that of the value that was encoded
            enc = ident(ev[en[0]][3][0])
            bc = [y for y in ev if y[0] == 'call' and match_name(y, 'RpcResponse::body')]
            for y in bc:
                ctx.ob(ceq(stem(ident(y[2][0])), stem(enc)) or contains(nvd(y[2][0]), lambda z: z == nvd(enc)), 'body-of-response', label, 'the body is taken from %s, not from the response that is sent' % show(y[2][0])[:80], y[5], p)
            if bc and bodies:
                ctx.ob(any(same_body(bodies[0], y[3]) for y in bc), 'body-of-response', label + '/value', 'the body handed on is %s' % show(bodies[0])[:80], bc[0][5], p)
        else:
            for y in ev[:hi]:
                if y[0] == 'call' and last(y[3]) == 'write_all_bytes' and contains(y[2][0], lambda z: z == x.req):
                    w = view_bytes(x.M, y[2][1])
                    if w is None:
                        ctx.note('C11: bytes written not recognised: %s' % show(y[2][1])[:80])
                    else:
                        ctx.ob(same_body(b, w, p.state, x.M.I), 'content-length', label + '/body', 'the announced length is that of %s, but %s is written' % (show(bodyid(b))[:60], show(bodyid(w))[:60]), y[5], p)
    ctx.at_least(2, n, 'encoded responses')
    # --- the write
    head = head_index(ctx)
    nw = nh = 0
    for x in exchanges(ctx):
        p = x.p
        if x.j is None or len(x.made) != 1:
            continue
        r, bodies, nw_ = written(x.next_conn)
        site = p.events[x.j][5]
        all_w = [e for e in x.ev if e[0] == 'call' and last(e[3]) in ('write_all_bytes', 'write_all', 'async_write_all')]
        f = method_head(p, x.req, head)
        if not bodies:
            nh += 1
            ctx.ob(f is True, 'body-written', x.label + '/missing', 'no body is written although the method is not known to be HEAD', site, p)
        else:
            nw += 1
            ctx.ob(f is False, 'head-without-body', x.label, 'a body is written although the method may be HEAD', all_w[0][5] if all_w else site, p)
            ctx.ob(len(bodies) == 1, 'body-written', x.label + '/once', 'the body is written %d times' % len(bodies), site, p)
            ctx.ob(nw_ >= 2 and bodies[0][1] >= 1, 'body-written', x.label + '/awaited', 'the next request is read before the response was written', site, p)
            if x.made[0][0] == 'call':
                w = view_bytes(x.M, bodies[0][0])
                a = [e for e in x.ev if e[0] == 'await' and e[2] == 'ok' and e[1] == x.made[0][3]]
                if w is None:
                    ctx.note('C11: bytes written not recognised: %s' % show(bodies[0][0])[:80])
                else:
                    wb = bodyid(w)
                    ctx.ob(a and projection_of(wb, a[0][3]), 'body-written', x.label + '/value', 'what is written is %s, not the body of the response' % show(wb)[:80], site, p)
    ctx.ob(nw, 'body-written', 'reachable', 'no path writes the body of a response')
    ctx.ob(nh, 'head-without-body', 'reachable', 'no path answers a HEAD request without a body')


def head_index(ctx):
    for i, v in enumerate(ctx.P.adts['miasht::Method']['variants']):
        if v['name'] == 'Head':
            return i
    return None


def method_head(p, req, head):
    """is the method of the request HEAD on this path? True | False | None"""
    f = p.state.facts
    for k, v in f.items():
        t = k[1]
        if not isinstance(t, tuple):
            continue
        if k[0] == 'var' and ismeth(t, req):
            return v == head
        if k[0] == 'notvar' and ismeth(t, req) and head in v:
            return False
    return None


def ismeth(t, req):
    t = ident(t)
    return t[0] == 'call' and t[1].startswith('miasht::server::Request') and last(t) == 'method' and ceq(t[2][0], req)


def same_body(a, b, st=None, I=None):
    a, b = bodyid(a), bodyid(b)
    if ceq(a, b):
        return True
    if I is not None:
        # heap objects stand for their contents
        a, b = (bodyid(I.snapv(st, x)) if x[0] == 'ref' else x for x in (a, b))
    return ceq(a, b)


def view_bytes(M, w):
    """the bytes written for a value of a local AsRef type; the value itself otherwise"""
    w = nv(w)
    if w[0] == 'adt' and w[1] in M.I.p.adts and M.I.p.adts[w[1]].get('local'):
        b = None
        for k in M.I.p.roots:
            x = M.I.p.bodies[k]
            if x.get('name') == 'as_ref' and x.get('trait') == 'std::convert::AsRef' and M.I.p.types[x['self_ty']].get('path') == w[1]:
                b = x
        if b is None:
            return None
        st = State()
        o = ('X', 'body')
        st.objs[o] = ('adt', w[1], w[2], tuple(('param', 'body%d' % i) for i in range(len(w[3]))))
        outs = [x for x in M.I.run_body(st, b, [('ref', o, (), False)], keep=True) or []]
        vals = set()
        for s, r in outs:
            if r[0] != 'ret':
                return None
            vals.add(bodyid(M.I.snapv(s, r[1])))
        if len(vals) == 1:
            (v,) = vals
            for i in range(len(w[3])):
                if v == ('param', 'body%d' % i):
                    return w[3][i]
            return ('bytes', v)
        return None
    return w


# ------------------------------------------------------------------ C23
@rule('C23', 'Every abstract path of the acceptor and of the connection future: each accepted stream is moved into one future that is handed to the spawner, and the acceptor then polls its listener again before it can end; the spawned future\'s error type carries nothing, no failure of a step is unwrapped into a panic or leaves the task waiting for nothing, and the connection\'s own failures are resolved only inside it; no value derived from one connection is polled by the acceptor; an EOF or reset while waiting for a request ends the task without error.',
      ['fibers: spawned tasks are independent of the spawning one'])
def c23(ctx):
    M, ps, spawned = machine.acceptor(ctx)
    ctx.need(spawned, 'future spawned for an accepted connection')
    acc = rounds = 0
    for p in ps:
        ev = p.events
        got = [(i, e) for i, e in enumerate(ev) if e[0] == 'await' and e[2] == 'ok' and contains(e[1], lambda x: x[0] == 'call' and last(x) in ('incoming', 'accept'))]
        # awaits made by the acceptor itself on something which belongs to one connection
        for i, e in enumerate(ev):
            if e[0] in ('await', 'pending'):
                f = e[1]
                one = connection_part(f)
                ctx.ob(not one, 'acceptor-waits-for-no-connection', 'acceptor', 'the acceptor itself waits for %s of one connection' % show(nv(f))[:80], e[2] if e[0] == 'pending' else '', p)
        for n, (i, e) in enumerate(got):
            hi = got[n + 1][0] if n + 1 < len(got) else len(ev)
            none = variant_of_client(p, e[3])
            sp = [x for x in ev[i:hi] if x[0] == 'call' and x[4].get('method') in ('spawn', 'spawn_boxed', 'spawn_monitor')]
            if none == 0:
                continue
            full = n + 1 < len(got) or p.kind == 'limit'
            if full or poll_kind(p) in ('parked', 'err', 'ready'):
                acc += 1
                ctx.ob(len(sp) == 1, 'task-per-connection', 'spawn', 'an accepted connection is handed to %d tasks' % len(sp), sp[0][5] if sp else '', p)
                for x in sp:
                    f = x[2][1]
                    ctx.ob(contains(f, lambda y: y == e[3]), 'task-per-connection', 'own', 'the task spawned does not serve the connection that was accepted', x[5], p)
                if not full:
                    # nothing but the listener may end or park the acceptor
                    rest = ev[i + 1:]
                    if poll_kind(p) == 'parked':
                        pend = [x for x in rest if x[0] == 'pending']
                        ctx.ob(pend and contains(pend[-1][1], lambda y: y[0] == 'call' and last(y) in ('incoming', 'accept', 'into_future')), 'keeps-accepting', 'parked', 'the acceptor parks on something else than its listener', '', p)
                    else:
                        bad = [x for x in rest if x[0] == 'await' and x[2] == 'err']
                        ctx.ob(bad, 'keeps-accepting', 'end', 'the server ends after it accepted a connection', '', p)
                if n + 1 < len(got):
                    rounds += 1
        if poll_kind(p) == 'ready':
            ctx.ob(False, 'keeps-accepting', 'ready', 'the server future completes', '', p)
        elif poll_kind(p) == 'err':
            # only a failed listener
            bad = [x for x in ev if x[0] == 'await' and x[2] == 'err']
            lost = got and variant_of_client(p, got[-1][1][3]) == 0
            ctx.ob(bad or lost, 'keeps-accepting', 'error', 'the server fails although its listener did not', '', p)
    ctx.ob(acc, 'task-per-connection', 'reachable', 'no accepted connection reaches a task')
    ctx.ob(rounds, 'keeps-accepting', 'again', 'the acceptor never accepts a second connection')
    parked(ctx, M, ps, ('F', 'server'), 'acceptor')
    # --- the task itself
    quiet = loud = 0
    qkinds = set()
    for label, M2, qs in machine.exchanges(ctx):
        for p in qs:
            if poll_kind(p) == 'parked':
                # a failure on the connection does not leave its task behind, waiting for nothing
                bad = [i for i, e in enumerate(p.events) if e[0] == 'await' and e[2] == 'err']
                ctx.ob(not bad or any(e[0] in ('pending', 'await') for e in p.events[bad[-1] + 1:]), 'failure-ends-the-task', label, 'after a failure on its connection the task neither ends nor waits for anything', '', p)
            rd = [e for e in p.events if e[0] == 'await' and is_call(e[1], 'read_request')]
            if not rd or rd[-1][2] != 'err' or p.events[-1:] and any(e[0] == 'await' and e[2] == 'err' and e is not rd[-1] for e in p.events):
                continue
            kinds = io_kinds(ctx, p, rd[-1][3])
            k = poll_kind(p)
            if k == 'ready':
                quiet += 1
                qkinds |= kinds or {'unknown'}
                ctx.ob(kinds != set(), 'quiet-close', label + '/only', 'the connection ends quietly for any failure to read a request', '', p)
            elif k == 'err':
                loud += 1
                ctx.ob('UnexpectedEof' not in kinds and 'ConnectionReset' not in kinds, 'quiet-close', label + '/' + '+'.join(sorted(kinds)), 'a connection closed by the peer (%s) is reported as a failure' % sorted(kinds), '', p)
    if quiet and 'unknown' not in qkinds:
        for k in ('UnexpectedEof', 'ConnectionReset'):
            ctx.ob(k in qkinds, 'quiet-close', k, 'a connection that ends with %s between requests is reported as a failure' % k)
    ctx.ob(quiet, 'quiet-close', 'reachable', 'a connection closed by its peer never ends quietly')
    # --- a failure is an outcome of the task, not a panic that takes down the thread it shares with others
    for label, M2, qs in [('acceptor', M, ps)] + list(machine.exchanges(ctx)) + [('handler', machine.registered(ctx)[0], machine.server_closures(ctx))]:
        unwrapped(ctx, M2.I, qs, 'failure-contained', label, 'a failure on a connection makes the thread panic')


def unwrapped(ctx, I, ps, rule_, who, msg):
    """no failed step is unwrapped into a panic"""
    from r_panic import refuted
    for p in ps:
        if p.kind == 'panic' and 'Result' in p.value[1]:
            ctx.ob(refuted(ctx, I, p, None), rule_, who + '/panic', '%s: %s' % (msg, p.value[1]), p.value[2], p)


def connection_part(f):
    """the future is about one accepted connection: it contains an item taken out of the listener's stream"""
    f = nv(f)
    if f[0] == 'adt' and f[1] == PHASE and f[3]:
        return connection_part(f[3][0])
    # fields 0 of an awaited (item, rest-of-stream) pair
    for x in subterms(f):
        if x[0] == 'field' and x[3] == '0' and x[1][0] == 'await' and contains(x[1], lambda y: y[0] == 'call' and last(y) in ('incoming', 'accept')):
            return True
    return False


def variant_of_client(p, v):
    """variant of the Option in the awaited (item, rest) pair"""
    for k, n in p.state.facts.items():
        if k[0] == 'var' and isinstance(k[1], tuple) and contains(k[1], lambda x: x == canon(v)) and k[1][0] == 'field' and k[1][3] == '0':
            return n
    return None


def io_kinds(ctx, p, e):
    """names of the io::ErrorKinds the failure is known to be of on this path"""
    out = set()
    path = 'std::io::ErrorKind'
    for k, v in p.state.facts.items():
        t = k[1]
        if not isinstance(t, tuple) or not contains(t, lambda x: x[0] == 'call' and last(x) == 'kind'):
            continue
        if k[0] == 'var' and t[0] == 'call' and last(t) == 'kind' and path in ctx.P.adts:
            out.add(ctx.P.variant_name(path, v))
        elif k[0] == 'b' and v is True:
            for x in subterms(t):
                if x[0] == 'adt' and x[1] == path:
                    out.add(ctx.P.variant_name(path, x[2]))
            if not out:
                out.add('unknown')
    return out
