"""C12: a call's exchange with the server."""
from common import *
from rules import rule
from r_router import ident, last, ceq, variant_fact, payload
from r_server import poll_kind, parked, written, content_lengths, len_of, same_body, view_bytes, projection_of, head_index, bodyid, unwrapped
import machine


def proc_head(p, head):
    """is the procedure's method HEAD on this path? True | False | None"""
    for k, v in p.state.facts.items():
        t = k[1]
        if not isinstance(t, tuple):
            continue
        u = ident(t)
        if u[0] == 'call' and u[1].endswith('Procedure::method'):
            if k[0] == 'var':
                return v == head
            if k[0] == 'notvar' and head in v:
                return False
    return None


def awaited(p, f, k='ok'):
    return [e for e in p.events if e[0] == 'await' and e[2] == k and nvd(e[1]) == nvd(f)]


def client_failure(p):
    """the error returned stems from a step that failed; building the request may fail for reasons of its own"""
    if contains(p.value, lambda x: x[0] == 'await' and x[1] == 'err' or x[0] == 'field' and x[2] == 'Err'):
        return True
    return not any(e[0] == 'call' and last(e[3]) in ('write_all_bytes', 'write_all') for e in p.events)


@rule('C12', 'Every abstract path of the futures returned by RpcClient::call and PooledRpcClient::call, polled to the end: at most one request is encoded and written; its Content-Length is the length of the very bytes handed to write_all_bytes, which are body() of the call\'s own request; read_response is applied to the awaited result of that write; the body passed to set_body is the awaited whole body of that response, or empty exactly where the method is HEAD; the value returned is the decoded head of that response with that body set; success implies every step succeeded, an error implies one of them failed; a parked poll keeps its state.',
      ['miasht: write_all_bytes and read_all_bytes transfer the whole body; a client Connection is obtained by awaiting the written request'])
def c12(ctx):
    head = head_index(ctx)
    for ty in ('RpcClient', 'PooledRpcClient'):
        M, ps = machine.call_future(ctx, ty)
        nok = nhead = 0
        for p in ps:
            ev = p.events
            en = [e for e in ev if e[0] == 'code' and e[1] == 'serialize' and e[2] == 'RpcRequestSerializer']
            wr = [e for e in ev if e[0] == 'call' and last(e[3]) in ('write_all_bytes', 'write_all')]
            rd = [e for e in ev if e[0] == 'call' and last(e[3]) == 'read_response']
            for what, l in (('encoded', en), ('written', wr), ('awaited', rd)):
                ctx.ob(len(l) <= 1, 'one-exchange', ty + '/' + what, '%d requests are %s by one call' % (len(l), what), l[-1][5] if l else '', p)
            if en:
                v = ident(en[0][3][0])
                ctx.ob(projection_of(stem(v), ('param', 'request')) or contains(v, lambda x: x == ('param', 'request')), 'own-request', ty, 'the request encoded is %s' % show(v)[:80], en[0][5], p)
            if wr:
                check_write(ctx, ty, M, p, en, wr[0])
            if rd:
                r, bodies, n = written(rd[0][2][0])
                if ctx.ob(bodies and n >= 2 and wr, 'written-before-reading', ty, 'the response is read from %s before the request was written' % show(r)[:80], rd[0][5], p):
                    ctx.ob(ceq(r, wr[0][2][0]), 'written-before-reading', ty + '/connection', 'the response is read from another connection than the request was written to', rd[0][5], p)
            k = poll_kind(p)
            if k == 'ready':
                nok += 1
                nhead += check_result(ctx, ty, M, p, rd, wr, en, head)
            elif k == 'err':
                ctx.ob(client_failure(p), 'error-has-cause', ty, 'the call fails although nothing failed', '', p)
            if k in ('ready', 'parked') or p.kind == 'limit':
                f = [e for e in ev if e[0] == 'await' and e[2] == 'err']
                ctx.ob(not f, 'failure-reported', ty, 'the failure of %s is not reported' % (show(nv(f[0][1]))[:80] if f else ''), '', p)
        ctx.ob(nok, 'reachable', ty + '/success', 'no path of the call succeeds')
        ctx.ob(nhead, 'reachable', ty + '/head', 'no path of the call handles HEAD')
        parked(ctx, M, ps, ('F', 'call'), ty)
        unwrapped(ctx, M.I, ps, 'failure-reported', ty, 'a failure makes the call panic instead of failing')
    intended_server(ctx)


def intended_server(ctx):
    """the direct client connects to the server it was made for"""
    M, ps = machine.call_future(ctx, 'RpcClient')
    new = M.body_of('RpcClient', 'new')
    made = [o[1] for s, o in M.call(State(), new, [('param', 'server')]) if o[0] == 'ret']
    conn = set()
    for p in ps:
        for e in p.events:
            if e[0] == 'call' and last(e[3]) == 'connect' and e[1].startswith('miasht::'):
                conn.add((ident(e[2][-1]), e[5]))
    ctx.ob(conn, 'intended-server', 'connect', 'RpcClient::call never connects')
    for a, site in conn:
        ok_ = False
        if a[0] == 'field' and contains(a, lambda x: x == ('param', 'client')):
            for v in made:
                if v[0] == 'adt':
                    names = M.I.p.adts[v[1]]['variants'][v[2]]['fields']
                    if a[3] in names and ident(v[3][names.index(a[3])]) == ('param', 'server'):
                        ok_ = True
        ctx.ob(ok_, 'intended-server', 'address', 'the call connects to %s, not to the server the client was made for' % show(a)[:80], site)


def check_write(ctx, ty, M, p, en, w):
    ev = p.events
    wi = ev.index(w)
    b = [e for e in ev[:wi] if e[0] == 'call' and match_name(e, 'RpcRequest::body')]
    if not ctx.ob(len(b) == 1, 'own-body', ty + '/once', 'the body is produced %d times' % len(b), w[5], p):
        return
    ctx.ob(contains(b[0][2][0], lambda x: x == ('param', 'request')), 'own-body', ty, 'the body written is that of %s' % show(b[0][2][0])[:80], b[0][5], p)
    by = view_bytes(M, w[2][1])
    if by is None:
        ctx.note('C12: bytes written not recognised')
    else:
        ctx.ob(same_body(by, b[0][3], p.state, M.I), 'own-body', ty + '/bytes', 'what is written is %s, not the body of the request' % show(bodyid(by))[:80], w[5], p)
    cl = [c for c in content_lengths(p, 0, 'RequestBuilder') if c[0] < wi]
    if not ctx.ob(len(cl) == 1, 'content-length', ty + '/once', '%d content lengths are announced' % len(cl), w[5], p):
        return
    i, e, v = cl[0]
    l = len_of(v) if v is not None else None
    if l is None:
        if v is not None and contains(v, lambda y: y[0] in ('int', 'len') or y[0] == 'call' and last(y) == 'len'):
            ctx.ob(False, 'content-length', ty + '/value', 'the announced length is %s' % show(v)[:80], e[5], p)
        else:
            ctx.note('C12: announced length not recognised')
    else:
        ctx.ob(same_body(l, b[0][3], p.state, M.I), 'content-length', ty + '/value', 'the announced length is that of %s, but the body is %s' % (show(bodyid(l))[:60], show(b[0][3])[:60]), e[5], p)
    fin = w[2][0]
    ctx.ob(fin[0] == 'call' and last(fin) == 'finish', 'content-length', ty + '/request', 'the body is written to %s' % show(fin)[:80], w[5], p)
    tgt = nvd(e[2][0])
    ctx.ob(contains(nvd(fin), lambda y: y == tgt or stem(y) == stem(tgt)), 'content-length', ty + '/builder', 'the content length is added to another request', e[5], p)
    fi = [j for j, x in enumerate(ev) if x[0] == 'call' and x[3] == fin]
    ctx.ob(not fi or i < fi[0], 'content-length', ty + '/order', 'the content length is added after the head was finished', e[5], p)
    mk = [x for x in ev[:wi] if x[0] == 'mk' and x[1] == 'RpcRequestSerializer']
    if mk and en:
        ctx.ob(contains(nvd(fin), lambda y: y == nvd(mk[0][2][0])), 'written-to-connection', ty, 'the request is written to another connection than the one obtained', w[5], p)


def check_result(ctx, ty, M, p, rd, wr, en, head):
    ev = p.events
    site = ''
    v = p.value[3][0][3][0]
    if not ctx.ob(len(wr) == 1 and len(rd) == 1 and len(en) == 1, 'success-means-exchanged', ty, 'the call succeeds although %d requests were written and %d responses read' % (len(wr), len(rd)), '', p):
        return 0
    ctx.ob(variant_fact(p, en[0][4]) == 0, 'success-means-exchanged', ty + '/encoded', 'the call succeeds although its request could not be encoded', en[0][5], p)
    aw = awaited(p, rd[0][3])
    if not ctx.ob(aw, 'success-means-exchanged', ty + '/read', 'the call succeeds although no response was received', rd[0][5], p):
        return 0
    resp = aw[0][3]
    de = [e for e in ev if e[0] == 'code' and e[1] == 'deserialize' and e[2] == 'RpcResponseDeserializer']
    if not ctx.ob(len(de) == 1 and variant_fact(p, de[0][4]) == 0, 'head-decoded', ty, 'the call succeeds although the response head was not decoded', de[0][5] if de else '', p):
        return 0
    mk = [e for e in ev if e[0] == 'mk' and e[1] == 'RpcResponseDeserializer']
    ctx.ob(mk and contains(mk[-1][2][0], lambda x: x == resp), 'head-decoded', ty + '/own', 'what is decoded is %s, not the response received' % show(mk[-1][2][0] if mk else ('?',))[:80], de[0][5], p)
    sb = [e for e in ev if e[0] == 'call' and match_name(e, 'RpcResponse::set_body')]
    if not ctx.ob(len(sb) == 1, 'body-handed-on', ty + '/once', 'the body is set %d times' % len(sb), sb[-1][5] if sb else '', p):
        return 0
    site = sb[0][5]
    dv = ('field', de[0][4], 'Ok', '0')
    ctx.ob(contains(nvd(sb[0][2][0]), lambda x: x == nvd(dv)), 'body-handed-on', ty + '/target', 'the body is set in %s, not in the decoded response' % show(sb[0][2][0])[:80], site, p)
    ctx.ob(contains(nvd(v), lambda x: x == nvd(dv)) and v[0] == 'upd' or v[0] == 'field' and contains(v, lambda x: x[0] == 'upd'), 'result', ty, 'the call returns %s, not the response with its body' % show(v)[:80], site, p)
    b = ident(sb[0][2][1])
    h = proc_head(p, head)
    empty = is_empty_vec(b)
    if empty:
        ctx.ob(h is True, 'body-read', ty + '/head', 'the body is taken to be empty although the method is not known to be HEAD', site, p)
        return 1
    a = [x for x in subterms(b) if x[0] == 'await' and x[1] == 'ok' and x[2][0] == 'call' and last(x[2]) == 'read_all_bytes']
    if a:
        ctx.ob(projection_of(b, a[0]), 'body-read', ty + '/exact', 'the bytes handed on are %s, not the ones received' % show(b)[:80], site, p)
        ctx.ob(contains(a[0], lambda x: x == resp), 'body-read', ty + '/own', 'the body handed on is not that of the response received', site, p)
        ctx.ob(h is False, 'body-read', ty + '/no-head', 'a body is awaited although the method may be HEAD', site, p)
        lim = [x for x in subterms(b) if x[0] == 'call' and last(x) in ('take', 'max_length', 'limit')]
        ctx.ob(not lim, 'body-read', ty + '/whole', 'only a part of the body is read', site, p)
    else:
        ctx.ob(False, 'body-read', ty, 'the bytes handed on are %s, not the body received' % show(b)[:80], site, p)
    return 0


def is_empty_vec(b):
    b = ident(b)
    return b[0] == 'call' and b[1].startswith('std::vec::Vec') and last(b) in ('new', 'default') or b[0] == 'adt' and b[1] == '[]' and not b[3] or \
        b[0] == 'call' and last(b) == 'default' or b[0] == 'call' and last(b) == 'with_capacity'
