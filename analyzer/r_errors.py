"""C20: failures are reported, with the right kind."""
from common import *
from rules import rule
from r_router import ident, last, variant_fact
from r_server import poll_kind, is_errv, unwrapped
import machine

INVALID, OTHER = 0, 1
# error sources and the kind of the crate's error they turn into; a pair is what the own kind of the source decides
KINDS = {
    'std::str::Utf8Error': INVALID, 'std::string::FromUtf8Error': INVALID, 'std::str::ParseBoolError': INVALID,
    'std::num::ParseIntError': INVALID, 'std::num::ParseFloatError': INVALID, 'url::ParseError': INVALID,
    'std::char::ParseCharError': INVALID, 'std::num::TryFromIntError': INVALID, 'std::char::CharTryFromError': INVALID,
    'std::io::Error': OTHER, 'miasht::Error': OTHER, 'std::sync::mpmc::RecvError': OTHER, 'std::sync::mpsc::RecvError': OTHER,
}
# error types of fallible steps: a value of one of these means that a step failed
FAILURES = tuple(KINDS) + ('error::Error', 'serdeconv::Error', 'std::net::AddrParseError')
# socket options are best effort
BEST_EFFORT = ('set_nodelay', 'set_keepalive', 'set_ttl', 'set_linger', 'set_recv_buffer_size', 'set_send_buffer_size')


def best_effort(t):
    """setting a socket option, directly or on the stream behind a wrapper"""
    if last(t) in BEST_EFFORT:
        return True
    return t[0] == 'call' and last(t) == 'with_inner'


def err_type(P, t):
    """the failure a type stands for: the type itself, or the one inside an Option, tuple or Phase"""
    ty = P.types[t]
    p = ty.get('path')
    if p in FAILURES or p and p.split('::')[-1] == 'Error' and p.startswith('error::'):
        return p
    if ty.get('k') == 'tuple' or p == 'std::option::Option':
        for a in ty.get('args') or ty.get('elems') or ():
            if isinstance(a, int):
                r = err_type(P, a)
                if r:
                    return r
    return None


def failed_steps(I, p):
    """[(call term, error type)] of the fallible steps known to have failed on this path"""
    out = []
    for k in p.state.facts:
        if k[0] not in ('var', 'notvar') or k[1] not in I.rtypes:
            continue
        t = k[1]
        if variant_fact(p, t) != 1 or best_effort(t):
            continue
        a = I.p.types[I.rtypes[t]]['args']
        e = err_type(I.p, a[1])
        if e:
            out.append((t, e))
    return out


def made_kinds(v):
    """[(kind, source)] of the crate's errors made inside a value"""
    out = []
    for x in subterms(v):
        if x[0] == 'call' and last(x) in ('cause', 'takes_over', 'error') and x[2]:
            k = nv(x[2][0])
            if k[0] == 'adt' and k[1].split('::')[-1] == 'ErrorKind' and k[1].startswith('error::'):
                out.append((k[2], ident(x[2][1]) if len(x[2]) > 1 else None))
    return out


NAMES = {INVALID: 'invalid', OTHER: 'other'}


@rule('C20', 'The conversion table of error sources is extracted from the From and custom impls of the crate\'s error and compared with the required kind of each source. Every path of every function that returns a Result, run on unknown arguments: a path on which a fallible step is known to have failed returns an error (also inside loops), no result of such a step is dropped unexamined, and the errors codec functions make themselves are of kind invalid. Every path of the client calls, the pool\'s replies, the connection future and the handler closures: a failed step ends in an error, or (server) in a refusal without the handler.',
      ['trackable: cause and takes_over keep the given kind', 'failures are recognised by their error type; Option-valued lookups are not failures'])
def c20(ctx):
    P = ctx.P
    table(ctx)
    D = Driver(P)
    D.I.note_errs = True
    nf = nk = 0
    for key in P.roots:
        b = P.bodies[key]
        rt = P.types[b['locals'][0]]
        fallible = rt.get('path') == RES
        codec = is_codec(b)
        if not fallible or P.types[rt['args'][0]].get('path') == ASYNC:
            continue            # futures are run as machines below
        try:
            ps = paths(D.call(State(), b, [('param', 'a%d' % i) for i in range(b['nargs'])]))
        except AnalysisError as e:
            ctx.note('C20: %s: %s' % (b['path'], e))
            continue
        ctx.track(D.I, ps)
        nf += 1
        fn = fname(b)
        ctx.ob(True, 'failure-reported', fn)
        unwrapped(ctx, D.I, ps, 'failure-reported', fn, 'panics instead of reporting a failure')
        for p in ps:
            if p.kind == 'loopback' and carries_failure(D.I, p, ps):
                continue
            if p.kind == 'ret' and not is_errv(p.value) or p.kind == 'loopback':
                for t, e in failed_steps(D.I, p):
                    if p.kind == 'ret' and p.value[0] != 'adt' and contains(p.value, lambda x: x == t or canon(x) == t):
                        continue
                    ctx.ob(False, 'failure-reported', '%s/%s' % (fn, last(t)), '%s although %s failed (%s)' % ('goes on' if p.kind == 'loopback' else 'succeeds', show(t)[:80], e), site_of(p, t), p)
                for e in p.events:
                    if e[0] == 'failed' and err_type(P, P.types[e[2]]['args'][1]) and not (isinstance(p.value, tuple) and contains(p.value, lambda x: x == e[3])):
                        ctx.ob(False, 'failure-reported', '%s/%s' % (fn, e[1].split('::')[-1]), '%s although %s failed' % ('goes on' if p.kind == 'loopback' else 'succeeds', e[1]), '', p)
                for t, e in dropped(D.I, p):
                    ctx.ob(False, 'result-examined', '%s/%s' % (fn, last(t)), 'the outcome of %s is never looked at' % show(t)[:80], site_of(p, t), p)
            if codec and not (p.kind == 'ret' and is_errv(p.value)) and '::_::' not in b['path']:
                for e in p.events:
                    if e[0] == 'call' and last(e[3]).endswith('_lossy'):
                        ctx.ob(False, 'failure-reported', '%s/%s' % (fn, last(e[3])), 'malformed text is repaired silently by %s' % e[1], e[5], p)
            if codec and p.kind == 'ret' and is_errv(p.value):
                for k, src in made_kinds(p.value):
                    nk += 1
                    ok_ = k == INVALID or src is not None and contains(src, lambda x: x[0] == 'field' and x[2] == 'Err' and x[1][0] == 'call' and x[1][1].startswith('serdeconv::'))
                    ctx.ob(ok_, 'codec-kind', fn, 'data that can not be encoded or decoded is reported as an error of kind %s (%s)' % (NAMES.get(k), show(src or ('?',))[:60]), '', p)
            if p.kind == 'ret' and is_errv(p.value):
                for k, src in made_kinds(p.value):
                    if src is not None and src[0] != 'str' and failed_await(src):
                        ctx.ob(k == OTHER, 'transport-kind', fn, 'a failure of the transport (%s) is reported as an error of kind %s' % (show(src)[:60], NAMES.get(k)), '', p)
    ctx.at_least(100, nf, 'functions returning Result')
    ctx.at_least(20, nk, 'errors made by codec functions')
    clients(ctx)
    server(ctx)
    pool(ctx)


def carries_failure(I, p, ps):
    """the iteration p leaves its failure in a loop variable which no later iteration overwrites"""
    from r_router import carried, unmoved
    for lid, key in list(I.phi_in):
        if lid[:2] != p.value[:2]:
            continue
        ph = ('phi', lid, key, None)
        v = carried(p, ph)
        if v is None or not is_errv(v):
            continue
        kept = True
        for q in ps:
            if q.kind != 'loopback' or q.value != p.value:
                continue
            for k, x in q.state.facts.items():
                if k[0] == 'var' and x == 1 and k[1][0] == 'phi' and k[1][1][:2] == lid[:2] and k[1][2] == key:
                    w = carried(q, ph)
                    kept = kept and w is not None and (is_errv(w) or unmoved(w, ph))
        asked = any(k[0] == 'var' and k[1][0] == 'phi' and k[1][1][:2] == lid[:2] and k[1][2] == key for q in ps for k in q.state.facts)
        if kept and asked:
            return True
    return False


def fname(b):
    return short_path(b)


def short_path(b):
    t = b.get('trait')
    return ('%s' % b['path']).replace('std::', '')[:120] if t else b['path'][:120]


def is_codec(b):
    p = b['path']
    t = b.get('trait') or ''
    if t.startswith(('serde::Serializer', 'serde::ser::', 'serde::Deserializer', 'serde::de::')):
        return True
    return any(x in p for x in ('Serializer', 'Deserializer')) and not t


def failed_await(v):
    return contains(v, lambda x: x[0] == 'await' and x[1] == 'err')


def site_of(p, t):
    for e in p.events:
        if e[0] == 'call' and canon(e[3]) == t:
            return e[5]
    return ''


def dropped(I, p):
    """fallible steps whose outcome flows nowhere on this path"""
    evs = [(i, e) for i, e in enumerate(p.events) if e[0] == 'call']
    for i, e in evs:
        t = canon(e[3])
        if t not in I.rtypes or best_effort(t):
            continue
        ty = err_type(I.p, I.p.types[I.rtypes[t]]['args'][1])
        if not ty or variant_fact(p, t) is not None:
            continue
        hit = lambda x: x == e[3]
        if p.value is not None and isinstance(p.value, tuple) and contains(p.value, hit):
            continue
        if any(contains(a, hit) for j, f in evs[i + 1:] for a in f[2]):
            continue
        if any(contains(v, hit) for v in p.state.objs.values() if isinstance(v, tuple)):
            continue
        if any(contains(k[1], hit) for k in p.state.facts if isinstance(k[1], tuple)):
            continue
        yield t, ty


# ------------------------------------------------------------------ the table
def table(ctx):
    P = ctx.P
    D = Driver(P)
    n = 0
    for key in P.roots:
        b = P.bodies[key]
        st = P.types[b['self_ty']] if b.get('self_ty') is not None else {}
        if not (st.get('path') or '').endswith('error::Error') or not b.get('nargs'):
            continue
        tr, nm = b.get('trait'), b.get('name')
        if not (tr == 'std::convert::From' and nm == 'from' or tr in ('serde::ser::Error', 'serde::de::Error') and nm == 'custom'):
            continue
        src = P.types[b['locals'][1]]
        f = ('param', 'f')
        ps = paths(D.call(State(), b, [f]))
        ctx.track(D.I, ps)
        sn = src.get('path') or src.get('s', '?')
        if nm == 'custom':
            inst = tr.split('::')[-2] + '::custom'
        else:
            inst = 'From<%s>' % P.tys(b['locals'][1])
        n += 1
        for p in ps:
            if p.kind != 'ret':
                ctx.ob(False, 'source-kind', inst, 'the conversion does not return', '', p)
                continue
            v = p.value
            mk = made_kinds(v)
            kinds = set(k for k, _ in mk)
            if nm == 'custom':
                ctx.ob(kinds == {INVALID}, 'source-kind', inst, 'a message of a Serialize or Deserialize impl becomes an error of kind %s' % [NAMES.get(k) for k in kinds], '', p)
                ctx.ob(contains(v, lambda x: x == f), 'source-kept', inst, 'the message is lost', '', p)
            elif sn in KINDS:
                ctx.ob(kinds == {KINDS[sn]}, 'source-kind', inst, 'a %s becomes an error of kind %s, not %s' % (sn, [NAMES.get(k) for k in kinds], NAMES[KINDS[sn]]), '', p)
                ctx.ob(contains(v, lambda x: x == f), 'source-kept', inst, 'the cause is lost', '', p)
            elif sn == 'serdeconv::Error':
                inv = None
                for k, x in p.state.facts.items():
                    if k[0] in ('var', 'notvar') and contains(k[1], lambda y: y == f):
                        r = variant_fact(p, k[1])
                        if r is not None:
                            inv = r == INVALID
                if inv is None:
                    ctx.ob(False, 'source-kind', inst, 'the kind of the source is not looked at', '', p)
                else:
                    ctx.ob(kinds == {INVALID if inv else OTHER}, 'source-kind', inst, 'a source of kind %s becomes an error of kind %s' % ('invalid' if inv else 'other', [NAMES.get(k) for k in kinds]), '', p)
                ctx.ob(contains(v, lambda x: x == f), 'source-kept', inst, 'the cause is lost', '', p)
            elif src.get('k') == 'tuple':
                ctx.ob(kinds == {OTHER}, 'source-kind', inst, 'an I/O failure becomes an error of kind %s' % [NAMES.get(k) for k in kinds], '', p)
                ctx.ob(contains(v, lambda x: x[0] in ('field', 'tfield') and contains(x, lambda y: y == f)), 'source-kept', inst, 'the cause is lost', '', p)
            elif sn == 'std::option::Option':
                r = variant_fact(p, f)
                if r == 0:
                    ctx.ob(kinds == {OTHER}, 'source-kind', inst + '/none', 'a timeout becomes an error of kind %s' % [NAMES.get(k) for k in kinds], '', p)
                else:
                    ctx.ob(not kinds and from_payload(v, f), 'source-kind', inst + '/some', 'a failure becomes %s, not the error it stands for' % show(v)[:80], '', p)
            elif sn.endswith('::Phase'):
                ctx.ob(not kinds and from_payload(v, f), 'source-kind', inst, 'a failure becomes %s, not the error it stands for' % show(v)[:80], '', p)
            else:
                n -= 1
    ctx.at_least(10, n, 'conversions into the crate\'s error')


def from_payload(v, f):
    v = nv(v)
    return v[0] == 'call' and last(v) in ('into', 'from') and contains(v[2][0], lambda x: x[0] == 'field' and ident(x[1]) == f)


# ------------------------------------------------------------------ futures
def clients(ctx):
    for ty in ('RpcClient', 'PooledRpcClient'):
        M, ps = machine.call_future(ctx, ty)
        ctx.ob(True, 'failure-reported', ty + '::call')
        unwrapped(ctx, M.I, ps, 'failure-reported', ty + '::call', 'panics instead of reporting a failure')
        for p in ps:
            k = poll_kind(p)
            if k == 'parked':
                lost = [i for i, e in enumerate(p.events) if e[0] == 'await' and e[2] == 'err']
                ctx.ob(not lost or any(e[0] in ('pending', 'await') for e in p.events[lost[-1] + 1:]), 'failure-reported', ty + '::call/parked', 'a failure is not reported: the call goes on waiting for nothing', '', p)
            bad = [(nv(e[1]), 'await') for e in p.events if e[0] == 'await' and e[2] == 'err'] + failed_steps(M.I, p) + \
                  [(e[4], 'codec') for e in p.events if e[0] == 'code' and variant_fact(p, e[4]) == 1]
            if k == 'ready' or p.kind == 'limit':
                for t, e in bad:
                    ctx.ob(False, 'failure-reported', '%s::call/%s' % (ty, what(t)), 'the call goes on although %s failed' % show(t)[:80], site_of(p, canon(t)), p)
            if k in ('ready', 'err', 'parked'):
                for t, e in dropped(M.I, p):
                    ctx.ob(False, 'result-examined', '%s::call/%s' % (ty, last(t)), 'the outcome of %s is never looked at' % show(t)[:80], site_of(p, t), p)
                for e in p.events:
                    if e[0] == 'code' and variant_fact(p, e[4]) is None and not (p.value and contains(p.value, lambda x: x == e[4])):
                        ctx.ob(False, 'result-examined', '%s::call/%s' % (ty, e[1]), 'whether the head could be %sd is never looked at' % e[1], e[5], p)
            if k == 'err':
                transport(ctx, p, ty + '::call')


def transport(ctx, p, who):
    f = [e for e in p.events if e[0] == 'await' and e[2] == 'err']
    for kd, src in made_kinds(p.value):
        if src is None and f:
            src = f[-1][3]
        if src is not None and (failed_await(src) or src[0] == 'str' and f):
            ctx.ob(kd == OTHER, 'transport-kind', who, 'a failure of the transport (%s) is reported as an error of kind %s' % (show(src)[:60], NAMES.get(kd)), '', p)


def what(t):
    t = ident(t)
    return last(t) if t[0] == 'call' else t[0]


def server(ctx):
    runs = [('connection', M, [p for p in ps]) for _, M, ps in machine.exchanges(ctx)]
    M0 = machine.registered(ctx)[0]
    runs.append(('handler', M0, machine.server_closures(ctx)))
    for who, M, ps in runs:
        ctx.ob(True, 'failure-reported', who)
        unwrapped(ctx, M.I, ps, 'failure-reported', who, 'panics instead of reporting a failure')
        for p in ps:
            ev = p.events
            if p.kind == 'panic':
                continue
            out = poll_kind(p) if who == 'connection' else 'err' if p.kind == 'ret' and is_errv(p.value) else 'ready' if p.kind == 'ret' else None
            for i, e in enumerate(ev):
                if e[0] == 'code' and variant_fact(p, e[4]) == 1:
                    t, enc = e[4], e[1] == 'serialize'
                elif e[0] == 'code' and e[1] == 'serialize' and variant_fact(p, e[4]) is None and out != 'err' and not (isinstance(p.value, tuple) and contains(p.value, lambda x: x == e[4])):
                    ctx.ob(False, 'result-examined', '%s/%s' % (who, e[1]), 'whether the response could be encoded is never looked at', e[5], p)
                    continue
                elif e[0] == 'await' and e[2] == 'err' and not is_call(e[1], 'read_request'):
                    t, enc = nv(e[1]), True
                elif e[0] == 'call' and variant_fact(p, e[3]) == 1 and canon(e[3]) in M.I.rtypes and (canon(e[3]), True) in [(x, True) for x, _ in failed_steps(M.I, p)]:
                    t, enc = e[3], e[1].startswith('serdeconv::')
                else:
                    continue
                later = ev[i + 1:]
                if enc:
                    # nothing else can be sent instead of a response that failed, except an error response
                    again = [x for x in later if x[0] == 'code' and x[1] == 'serialize']
                    ctx.ob(out == 'err' or out == 'parked' or again, 'failure-reported', '%s/%s' % (who, what(t)), 'the exchange succeeds although %s failed' % show(t)[:80], e[5] if len(e) > 5 else '', p)
                else:
                    h = [x for x in later if x[0] == 'call' and (match_name(x, 'HandleRpc::handle_rpc') or who == 'connection' and x[1] == '<fn value>')]
                    ctx.ob(not h, 'failure-reported', '%s/%s' % (who, what(t)), 'the handler is called although %s failed' % show(t)[:80], h[0][5] if h else '', p)
            if out == 'err':
                transport(ctx, p, who)
    M, ps, _ = machine.acceptor(ctx)
    for p in ps:
        f = [e for e in p.events if e[0] == 'await' and e[2] == 'err']
        if f and poll_kind(p) == 'ready':
            ctx.ob(False, 'failure-reported', 'acceptor', 'the server ends without an error although %s failed' % show(nv(f[0][1]))[:80], '', p)
        if poll_kind(p) == 'err':
            transport(ctx, p, 'acceptor')


def pool(ctx):
    from r_pool import replies
    nerr = 0
    for p, args, n, res, site in replies(ctx):
        for q, o in res:
            if o[0] not in ('ok', 'err'):
                continue
            f = [e for e in q.events[n:] if e[0] == 'await' and e[2] == 'err']
            if o[0] == 'ok':
                ctx.ob(not f, 'failure-reported', 'acquire', 'a connection is handed out although %s failed' % (show(nv(f[0][1]))[:80] if f else ''), site, q)
            else:
                nerr += 1
                for k, src in made_kinds(o[1]):
                    ctx.ob(k == OTHER, 'transport-kind', 'acquire', 'a failure to obtain a connection is reported as an error of kind %s' % NAMES.get(k), site, q)
    ctx.ob(nerr, 'failure-reported', 'acquire/reachable', 'no acquisition can fail')
