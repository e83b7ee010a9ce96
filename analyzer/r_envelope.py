"""C05, C06: the parts of a request and a response go where the other side looks for them."""
from common import *
from rules import rule

SUBS = {'path': ('UrlPathSerializer', 'UrlPathDeserializer'), 'query': ('UrlQuerySerializer', 'UrlQueryDeserializer'),
        'header': ('HttpHeaderSerializer', 'HttpHeaderDeserializer')}
CONN, METHOD, EP, URL, REQ, RESP = (('param', x) for x in ('connection', 'method', 'entry_point', 'url', 'request', 'response'))


def part(n):
    return ('opaque', n)


class EnvDriver(Driver):
    """the part codecs (decided by C01-C04) are opaque: their construction and use are recorded"""

    def __init__(self, P, **kw):
        self.ctors = {}
        self.subpaths = {}
        Driver.__init__(self, P, **kw)
        for k, names in SUBS.items():
            for i, n in enumerate(names):
                p = self.find_adt(n)
                b = self.inherent(p, 'new') if p else None
                if b is not None:
                    self.ctors[b['path']] = (k, 'de' if i else 'ser', b)
                    self.subpaths[p] = k
        self.I.hooks.insert(0, self.ctor_hook)

    def ctor_hook(self, I, st, c, args, site, dty):
        hit = self.ctors.get(c['path']) or self.ctors.get(c.get('rpath'))
        if hit:
            kind, side, b = hit
            sargs = I.snap(st, args)
            v = ('part', kind, side, st.fresh(), sargs)
            st.emit(('part', kind, side, sargs, v, site))
            I.havoc_args(st, args, b['path'])
            if I.p.types[b['locals'][0]].get('path') == RES:
                s2 = st.copy()
                return [(st, ('ret', ok(v))), (s2, ('ret', err(('parterr', kind))))]
            return [(st, ('ret', v))]
        tr, m = c.get('trait'), c.get('method')
        if tr == 'serde::Serialize' and m == 'serialize':
            r = peel(I.snapv(st, args[1]))
            if r[0] in ('part', 'upd') and root(r)[0] == 'part':
                return self.use(st, peel(I.snapv(st, args[0])), args[1], root(r), site)
        if tr == 'serde::Serializer' and m in ('serialize_unit',):
            r = peel(I.snapv(st, args[0]))
            if root(r)[0] == 'part':
                return self.use(st, UNIT, args[0], root(r), site)
        return None

    def use(self, st, val, s, r, site):
        st.emit(('use', r[1], r, val, site))
        s2 = st.copy()
        return [(st, ('ret', ok(UNIT))), (s2, ('ret', err(('useerr', r[1]))))]

    def ser(self, st, sh, s, path):
        if sh[0] == 'opaque':
            r = peel(self.I.snapv(st, s))
            if root(r)[0] == 'part':
                return self.use(st, ('shapeval', sh), s, root(r), '')
            v = ('call', 'serde::Serialize::serialize', (('shapeval', sh), self.I.snapv(st, s)), st.fresh())
            st.emit(('call', 'serde::Serialize::serialize', v[2], v, {'path': 'serde::Serialize::serialize'}, ''))
            return [(st, ('ret', v))]
        return Driver.ser(self, st, sh, s, path)

    def de(self, st, sh, d, path):
        r = peel(self.I.snapv(st, d))
        if root(r)[0] == 'part':
            st.emit(('use', root(r)[1], root(r), ('shapeseed', sh), ''))
            s2 = st.copy()
            return [(st, ('ret', ok(('decoded', sh, r)))), (s2, ('ret', err(('useerr', r[1]))))]
        return Driver.de(self, st, sh, d, path)


def method_call(D, st, path, name, args):
    b = D.inherent(path, name)
    if b is None:
        raise Missing(path + '::' + name)
    return D.call(st, b, args)


# ------------------------------------------------------------------ C05
def run_writer(ctx, D, path, fields, form):
    outs = method_call(D, State(), path, 'new', [CONN, METHOD, EP])
    res = []
    for s, o in outs:
        if o[0] != 'ret':
            res.append((s, o))
            continue
        for s1, v in plain(D, path, s, o[1]):
            r = D.mkref(s1, v)
            items = tuple((f, part(f)) for f in fields)
            sh = {'struct': ('struct', items), 'struct_variant': ('struct_variant', ('param', 'vname'), items),
                  'newtype': ('newtype', ('struct', items))}[form]

            def fin(s2, _):
                s2.emit(('mark', 'finish'))
                return method_call(D, s2, path, 'finish', [D.I.load(s2, r[1], r[2]), ('param', 'body')])
            res += D.chain(D.ser(s1, sh, r, path), fin)
    ps = paths(res)
    ctx.track(D.I, ps)
    return ps


def plain(D, path, st, v):
    b = D.inherent(path, 'new')
    if D.P.types[b['locals'][0]].get('path') == RES:
        return [(s, r[1]) for s, r in split_result(D.I, st, v) if r[0] == 'ok']
    return [(st, v)]


def history(t):
    """names of the mutations a value went through, oldest first, through loop-free histories"""
    out = []
    t = peel(t)
    while t[0] in ('upd', '&', 'deref', 'box'):
        if t[0] == 'upd':
            out.append(t)
            t = t[3]
        else:
            t = t[1]
    return out[::-1], t


def url_slice(t):
    """the URL text handed to build_request -> (url term, carries path, carries query) or None"""
    t = nv(t)
    if is_call(t, 'index') and len(t[2]) == 2:
        r = nv(t[2][1])
        if r[0] == 'adt':
            pos = [position(x) for x in r[3]]
            n = r[1].split('::')[-1]
            if n == 'RangeFrom':
                return nv0(t[2][0]), pos[0] == 'BeforePath', True, pos
            if n in ('Range', 'RangeInclusive'):
                return nv0(t[2][0]), pos[0] == 'BeforePath', pos[1] in ('AfterQuery', 'BeforeFragment', 'AfterFragment'), pos
            return nv0(t[2][0]), False, n == 'RangeFull', pos
    if is_call(t, 'path') and 'url' in t[1]:
        return nv0(t[2][0]), True, False, ['path()']
    return None


def nv0(t):
    while t[0] in ('&', 'deref', 'box'):
        t = t[1]
    return t


def position(t):
    t = nv(t)
    if t[0] == 'adt' and t[1].endswith('Position'):
        return POSITIONS[t[2]]['name'] if t[2] < len(POSITIONS) else str(t[2])
    return show(t)


POSITIONS = []


def check_request(ctx, p, fields, inst, site):
    bs = [e for e in calls(p, 'build_request')]
    if not ctx.ob(len(bs) == 1, 'one-request', inst, 'a request with parts %s is built %d times' % (list(fields), len(bs)), site, p):
        return
    b = bs[0]
    bi = p.events.index(b)
    ctx.ob(nv(b[2][0]) == CONN, 'request-connection', inst, 'the request is built on %s' % show(b[2][0])[:80], b[5], p)
    ctx.ob(nv(b[2][1]) == METHOD, 'request-method', inst, 'the request is built with method %s' % show(b[2][1])[:80], b[5], p)
    u = url_slice(b[2][2])
    made = [(i, e) for i, e in enumerate(p.events) if e[0] == 'part' and e[2] == 'ser']
    used = [(i, e) for i, e in enumerate(p.events) if e[0] == 'use']
    byid = {e[4]: (i, e) for i, e in made}

    def of(kind):
        return [(i, e) for i, e in used if e[1] == kind]
    # path: exactly one effective spelling of the entry point
    pu = of('path')
    if ctx.ob(len(pu) == 1, 'path-spelled-once', inst, 'parts %s: the entry point is spelled %d times' % (list(fields), len(pu)), site, p):
        i, e = pu[0]
        mk = byid[e[2]][1]
        ctx.ob(nv(mk[3][0]) == EP, 'path-entry-point', inst, 'the path is spelled from %s' % show(mk[3][0])[:80], mk[5], p)
        want = ('shapeval', part('path')) if 'path' in fields else UNIT
        ctx.ob(nv(e[3]) == want, 'path-value', inst, 'the path is filled with %s' % show(e[3])[:80], site, p)
        ctx.ob(i < bi, 'url-complete', inst, 'the URL is fixed before the path was written to it', b[5], p)
    qu = of('query')
    nq = 1 if 'query' in fields else 0
    if ctx.ob(len(qu) == nq, 'query-written', inst, 'parts %s: the query is written %d times' % (list(fields), len(qu)), site, p) and nq:
        i, e = qu[0]
        ctx.ob(nv(e[3]) == ('shapeval', part('query')), 'query-value', inst, 'the query is filled with %s' % show(e[3])[:80], site, p)
        ctx.ob(i < bi, 'url-complete', inst, 'the URL is fixed before the query was written to it', b[5], p)
    hu = of('header')
    nh = 1 if 'header' in fields else 0
    if ctx.ob(len(hu) == nh, 'header-written', inst, 'parts %s: the header part is written %d times' % (list(fields), len(hu)), site, p) and nh:
        i, e = hu[0]
        ctx.ob(nv(e[3]) == ('shapeval', part('header')), 'header-value', inst, 'the headers are filled with %s' % show(e[3])[:80], site, p)
        mk = byid[e[2]][1]
        ctx.ob(contains(mk[3][0], lambda x: x == b[3] or (is_call(x, 'build_request'))), 'header-target', inst,
               'the header part is written to %s' % show(mk[3][0])[:80], mk[5], p)
    if u is None:
        ctx.note('%s: form of the request target not recognised' % inst)
        return
    url, has_path, has_query, pos = u
    ctx.ob(has_path, 'target-has-path', inst, 'the request target does not start at the path: %s' % pos, b[5], p)
    ctx.ob(has_query or not nq, 'target-has-query', inst, 'the request target leaves out the query: %s' % pos, b[5], p)
    hist, base = history(url)
    hs = [h[1] for h in hist]
    if pu:
        mk = byid[pu[0][1][2]][1]
        ctx.ob(nv0(root(mk[3][1])) == nv0(base), 'path-same-url', inst, 'the path is written to another URL than the one sent', mk[5], p)
    if nq and qu:
        mk = byid[qu[0][1][2]][1]
        src = [x for x in subterms(mk[3][0]) if is_call(x, 'query_pairs_mut')]
        ctx.ob(not src or any(nv0(root(x[2][0])) == nv0(base) for x in src), 'query-same-url', inst,
               'the query is written to another URL than the one sent', mk[5], p)
    # anything else that changes the URL (fragments, hosts, cleared queries ...) after it was filled
    filled = [k for k, h in enumerate(hist) if 'path_segments_mut' in h[1] or 'PathSerializer' in h[1] or 'query_pairs_mut' in h[1]]
    if filled:
        bad = [h[1] for h in hist[min(filled):] if h[1].split('::')[-1] in ('set_path', 'set_query', 'clear', 'set_fragment', 'set_host', 'truncate')]
        ctx.ob(not bad, 'url-untouched', inst, 'the URL is changed by %s after it was filled' % bad, b[5], p)
    # the request that is finished is the one built
    fin = [e for e in calls(p, 'finish') if e[2] and contains(e[2][0], lambda x: is_call(x, 'build_request'))]
    ctx.ob(len(fin) == 1, 'request-finished', inst, 'the request built is finished %d times' % len(fin), site, p)
    if is_ok(p) and fin:
        ctx.ob(nv(p.value[3][0]) == nv(fin[0][3]), 'request-returned', inst, 'another request than the one built is returned', site, p)


ORDERS = [(), ('path',), ('query',), ('header',), ('path', 'query'), ('path', 'header'), ('query', 'header'), ('path', 'query', 'header'),
          ('query', 'path'), ('header', 'path'), ('header', 'query'), ('query', 'header', 'path'), ('header', 'query', 'path'), ('path', 'header', 'query')]


@rule('C05', 'Typestate of the request builder: the public serde protocol of the request serializer is driven over every combination and order of parts, and on every accepting path the entry point is spelled exactly once from the given entry point, the query lands in the same URL before it is sliced, the headers in the built request; the request deserializer must offer the same three names, each read from the matching place. Client and server closure must use the method and entry point of the same procedure.',
      ['Url::index(BeforePath..) yields path and query', 'miasht build_request sends method and target verbatim'])
def c05(ctx):
    D = EnvDriver(ctx.P)
    POSITIONS[:] = ctx.P.adts.get('url::Position', {}).get('variants', [])
    path = ctx.need(D.find_adt('RpcRequestSerializer'), 'type RpcRequestSerializer')
    ctx.need(D.inherent(path, 'new'), 'RpcRequestSerializer::new')
    ctx.need(D.inherent(path, 'finish'), 'RpcRequestSerializer::finish')
    site = path
    for form in ('struct', 'struct_variant', 'newtype'):
        for fields in ORDERS:
            if form != 'struct' and len(fields) > 1 and fields != ('path', 'query', 'header'):
                continue
            inst = '%s{%s}' % (form, ','.join(fields))
            ps = run_writer(ctx, D, path, fields, form)
            oks = [p for p in ps if is_ok(p)]
            # the documented order must be accepted
            if list(fields) == [f for f in ('path', 'query', 'header') if f in fields]:
                ctx.ob(oks, 'parts-accepted', inst, 'a request with parts %s can not be encoded' % list(fields), site)
            for p in oks:
                check_request(ctx, p, fields, inst, site)
            for p in ps:
                if p.kind == 'ret' and not is_err(p) and not is_ok(p):
                    ctx.note('%s: unresolved result %s' % (inst, show(p.value)[:80]))
        for key in ('body', 'status', 'Path', ('param', 'key')):
            inst = '%s{%s}' % (form, key if isinstance(key, str) else 'other')
            items = ((key, part('x')),)
            for p in run_raw(ctx, D, path, items, form):
                if p.kind != 'ret':
                    continue
                if not isinstance(key, str):
                    k = p.state.facts.get(('is', canon(key)))
                    if k is not None and k[1] in ('path', 'query', 'header'):
                        continue
                    ctx.ob(k is None or is_err(p), 'unknown-part-refused', inst + str(k and k[1]), 'the part %r is accepted silently' % (k and k[1]), site, p)
                ctx.ob(is_err(p), 'unknown-part-refused', inst, 'an unknown part is accepted silently', site, p)
    readers(ctx)
    same_procedure(ctx)


def run_raw(ctx, D, path, items, form):
    res = []
    for s, o in method_call(D, State(), path, 'new', [CONN, METHOD, EP]):
        if o[0] != 'ret':
            continue
        for s1, v in plain(D, path, s, o[1]):
            r = D.mkref(s1, v)
            sh = {'struct': ('struct', items), 'struct_variant': ('struct_variant', ('param', 'vname'), items),
                  'newtype': ('newtype', ('struct', items))}[form]
            res += D.ser(s1, sh, r, path)
    ps = paths(res)
    ctx.track(D.I, ps)
    return ps


def readers(ctx):
    D = EnvDriver(ctx.P)
    path = ctx.need(D.find_adt('RpcRequestDeserializer'), 'type RpcRequestDeserializer')
    b = ctx.need(D.inherent(path, 'new'), 'RpcRequestDeserializer::new')
    names = ('path', 'query', 'header')
    for form in ('map', 'struct', 'newtype'):
        items = tuple((('r', 'identifier'), part(i)) for i in range(4))
        sh = {'map': ('map', items), 'struct': ('struct', items), 'newtype': ('newtype', ('struct', items))}[form]
        res = []
        for s, o in D.call(State(), b, [EP, URL, REQ]):
            if o[0] == 'ret':
                r = D.mkref(s, o[1])
                res += D.de(s, sh, r, path)
        ps = paths(res)
        ctx.track(D.I, ps)
        good = 0
        for p in ps:
            if p.kind != 'ret':
                continue
            inst = 'read/%s' % form
            offered = offered_parts(p)
            seen = []
            for key, made in offered:
                if key is None:
                    ctx.note('%s: name of an offered part not recognised' % inst)
                    continue
                seen.append(key)
                ctx.ob(key in names, 'known-name', inst + '/' + key, 'the request deserializer offers a part %r' % key, path, p)
                if made is None or key not in names:
                    continue
                ctx.ob(made[1] == key, 'part-from-its-place', inst + '/' + key, 'the part %r is read by the %s codec' % (key, made[1]), made[5], p)
                a = made[3]
                if key == 'path':
                    ctx.ob(len(a) == 2 and nv(a[0]) == EP and nv(a[1]) == URL, 'path-source', inst, 'the path is read from %s' % show(a[0])[:60], made[5], p)
                elif key == 'query':
                    ctx.ob(source_of(a[0], 'query', URL), 'query-source', inst, 'the query is read from %s' % show(a[0])[:80], made[5], p)
                else:
                    ctx.ob(source_of(a[0], 'headers', REQ), 'header-source', inst, 'the headers are read from %s' % show(a[0])[:80], made[5], p)
            ctx.ob(len(set(seen)) == len(seen), 'each-part-once', inst, 'parts are offered as %s' % seen, path, p)
            if is_ok(p):
                good += 1
                ctx.ob(set(seen) == set(names), 'all-parts-offered', inst, 'only the parts %s are offered' % seen, path, p)
        ctx.ob(good, 'readable', form, 'no request can be decoded', path)


def source_of(t, method, base):
    """t is obtained from base by a library accessor whose name has `method` in it"""
    t = nv(t)
    if t[0] == 'call' and method in t[1].split('::')[-1] and any(nv(root(a)) == base for a in t[2]):
        return True
    return t[0] == 'call' and any(source_of(a, method, base) for a in t[2])


def offered_parts(p):
    """(literal key, part constructor event or None) in the order they were offered"""
    out = []
    key = None
    have = False
    for e in p.events:
        if e[0] == 'mark' and e[1] == 'key':
            have, key = False, None
        elif e[0] == 'call' and e[1] == 'seed':
            lit = [x for x in subterms(e[2][1]) if x[0] == 'str']
            key = lit[0][1] if len(lit) == 1 else None
            have = True
        elif e[0] == 'mark' and e[1] == 'value':
            out.append([key, None])
        elif e[0] == 'part' and e[2] == 'de' and out:
            out[-1][1] = e
        elif e[0] == 'mark' and e[1] == 'nokey' and have:
            out.append([key, None])
    return out


def same_procedure(ctx):
    """the client and the server closure take method and entry point from the procedure they serve"""
    P = ctx.P
    from machine import server_closures, client_runs
    for what, ps in (('server', server_closures(ctx)), ('client', client_runs(ctx))):
        n = 0
        for p in ps:
            for e in p.events:
                if e[0] != 'mk':
                    continue
                n += 1
                kind, a, site = e[1], e[2], e[3]
                if kind == 'RpcRequestDeserializer':
                    ctx.ob(is_proc(a[0], 'entry_point'), 'server-entry-point', what, 'the server decodes requests with the entry point %s' % show(a[0])[:80], site, p)
                    ctx.ob(nv(a[1]) == ('param', 'url'), 'server-url', what, 'the server decodes the URL %s' % show(a[1])[:80], site, p)
                    ctx.ob(nv(a[2]) == ('param', 'request'), 'server-request', what, 'the server decodes the request %s' % show(a[2])[:80], site, p)
                elif kind == 'RpcRequestSerializer':
                    ctx.ob(is_proc(a[1], 'method'), 'client-method', what, 'the client sends the method %s' % show(a[1])[:80], site, p)
                    ctx.ob(is_proc(a[2], 'entry_point'), 'client-entry-point', what, 'the client uses the entry point %s' % show(a[2])[:80], site, p)
        ctx.at_least(1, n, what + ' codec construction')


def is_proc(t, m):
    t = nv(t)
    return t[0] == 'call' and t[1].endswith('Procedure::' + m)


# ------------------------------------------------------------------ C06
# the HTTP status registry under the names used by miasht's `Status` (CamelCase reason phrases)
REGISTRY = {
    'Continue': 100, 'SwitchingProtocols': 101, 'Processing': 102, 'Ok': 200, 'Created': 201, 'Accepted': 202,
    'NonAuthoritativeInformation': 203, 'NoContent': 204, 'ResetContent': 205, 'PartialContent': 206, 'MultiStatus': 207,
    'AlreadyReported': 208, 'ImUsed': 226, 'MultipleChoices': 300, 'MovedPermanently': 301, 'Found': 302, 'SeeOther': 303,
    'NotModified': 304, 'UseProxy': 305, 'TemporaryRedirect': 307, 'PermanentRedirect': 308, 'BadRequest': 400,
    'Unauthorized': 401, 'PaymentRequired': 402, 'Forbidden': 403, 'NotFound': 404, 'MethodNotAllowed': 405,
    'NotAcceptable': 406, 'ProxyAuthenticationRequired': 407, 'RequestTimeout': 408, 'Conflict': 409, 'Gone': 410,
    'LengthRequired': 411, 'PreconditionFailed': 412, 'PayloadTooLarge': 413, 'UriTooLong': 414, 'UnsupportedMediaType': 415,
    'RangeNotSatisfiable': 416, 'ExceptionFailed': 417, 'ImATeapot': 418, 'MisdirectedRequest': 421, 'UnprocessableEntity': 422,
    'Locked': 423, 'FailedDependency': 424, 'UpgradeRequired': 426, 'UnavailableForLegalReasons': 451,
    'InternalServerError': 500, 'NotImplemented': 501, 'BadGateway': 502, 'ServiceUnavailable': 503, 'GatewayTimeout': 504,
    'HttpVersionNotSupported': 505, 'VariantAlsoNegotiates': 506, 'InsufficientStorage': 507, 'LoopDetected': 508,
    'BandwidthLimitExceeded': 509, 'NotExtended': 510,
}
VNAME = ('param', 'variant')
STATUS = 'miasht::Status'


def run_response(ctx, D, path, sh, finish=True):
    res = []
    for s, o in method_call(D, State(), path, 'new', [CONN]):
        if o[0] != 'ret':
            continue
        for s1, v in plain(D, path, s, o[1]):
            r = D.mkref(s1, v)

            def fin(s2, _):
                s2.emit(('mark', 'finish'))
                return method_call(D, s2, path, 'finish', [D.I.load(s2, r[1], r[2]), ('param', 'body')])
            outs = D.ser(s1, sh, r, path)
            res += D.chain(outs, fin) if finish else outs
    ps = paths(res)
    ctx.track(D.I, ps)
    return ps


def status_value(t):
    """the numeric status handed to build_response, as a term over what the response states: (term, problem)"""
    t = nv(t)
    while True:
        if t[0] == 'field' and t[2] in ('Some', 'Ok'):
            t = nv(t[1])
        elif is_call(t, 'normalize', 'ok_or', 'ok_or_else', 'clone'):
            t = nv(t[2][0])
        elif is_call(t, 'new') and 'RawStatus' in t[1]:
            t = nv(t[2][0])
        elif t[0] == 'adt' and t[1].endswith('RawStatus'):
            t = nv(t[3][0])
        elif t[0] == 'cast':
            if not lossless(t[1], t[2]):
                return None, 'the status is narrowed from %s to %s' % (t[1], t[2])
            t = nv(t[3])
        elif is_call(t, 'parse', 'from_str'):
            pt = [x for x in (t[3] or ()) if not x.startswith("'")]
            if pt and pt[-1] in INT_BITS and not lossless('u16', pt[-1]) and pt[-1] != 'u16':
                return None, 'the status is parsed as %s' % pt[-1]
            t = nv(t[2][0])
        elif t[0] == 'call' and t[1].split('::')[-1] in ('to_json_string', 'to_json_value', 'to_json_vec', 'from_json_str', 'to_string', 'trim', 'from_json_slice', 'to_json_string_pretty'):
            t = nv(t[2][0])
        else:
            return t, None


def writer_tables(ctx, D, path, form, shape):
    """variant name -> status on the accepting paths of a variant-shaped response"""
    table, ok_default = {}, False
    for p in run_response(ctx, D, path, shape):
        if p.kind != 'ret' or is_err(p):
            continue
        bs = calls(p, 'build_response')
        if not ctx.ob(len(bs) == 1, 'one-response', form, 'a %s response is built %d times' % (form, len(bs)), path, p):
            continue
        st = nv(bs[0][2][1])
        nm = p.state.facts.get(('is', VNAME))
        if st[0] == 'adt' and st[1] == STATUS:
            v = ctx.P.variant_name(STATUS, st[2])
            if nm is None or nm[0] not in ('str', 'bytes'):
                ctx.ob(False, 'unknown-name-refused', form, 'a %s with an unknown name is answered %s' % (form, v), bs[0][5], p)
                continue
            n = nm[1] if nm[0] == 'str' else bytes(nm[1]).decode('utf8', 'replace')
            table.setdefault(n, set()).add(v)
        elif nm is None and (contains_prov(D.I, st, VNAME) or looked_up(p, st)):
            ok_default = True
            ctx.note('%s: name table not in the form of a match, computed from the name' % form)
        else:
            ctx.ob(False, 'status-from-name', form, 'the status of a %s response is %s' % (form, show(st)[:80]), bs[0][5], p)
    return table, ok_default


def looked_up(p, t):
    """t is part of a table entry whose key was compared equal with the variant name"""
    el = [x for x in subterms(t) if x[0] in ('next', 'index') or (x[0] == 'call' and x[1].split('::')[-1] in ('get', 'find'))]
    return any(k[0] == 'b' and v and contains(k[1], lambda x: x == VNAME) and any(contains(k[1], lambda x: x == canon(y)) for y in el) for k, v in p.state.facts.items())


def contains_prov(I, t, x):
    return x in prov(I, t) or any(nv(y) == x for y in prov(I, t))


@rule('C06', 'The status tables of both directions are extracted as the relation between the matched literal and the status used on each accepting path, and compared with the HTTP registry and with each other; numeric statuses must be passed on through lossless steps only, headers must go to the headers of the built response, and a finished response must have had its status set on every path.',
      ['miasht Status/RawStatus map names and codes as in the HTTP registry', 'serdeconv::to_json_string of an integer is its decimal text'])
def c06(ctx):
    D = EnvDriver(ctx.P)
    path = ctx.need(D.find_adt('RpcResponseSerializer'), 'type RpcResponseSerializer')
    ctx.need(D.inherent(path, 'new'), 'RpcResponseSerializer::new')
    ctx.need(D.inherent(path, 'finish'), 'RpcResponseSerializer::finish')
    names = [v['name'] for v in ctx.P.adts[STATUS]['variants']] if STATUS in ctx.P.adts else list(REGISTRY)
    for n in names:
        ctx.ob(n in REGISTRY, 'registry', n, 'status %s is not in the registry table' % n)
    # --- server: by name
    for form, sh in (('unit_variant', ('unit_variant', VNAME)), ('struct_variant', ('struct_variant', VNAME, (('header', part('header')),))),
                     ('struct_variant{}', ('struct_variant', VNAME, ()))):
        table, dflt = writer_tables(ctx, D, path, form, sh)
        for n, vs in sorted(table.items()):
            ctx.ob(len(vs) == 1 and n in vs, 'name-to-status', '%s/%s' % (form, n), 'variant %s is sent with status %s' % (n, '/'.join(sorted(vs))), path)
        if not dflt:
            for n in names:
                ctx.ob(n in table, 'name-known', '%s/%s' % (form, n), 'a response variant %s is refused' % n, path)
    # --- server: by number, headers
    for fields in ((), ('status',), ('header',), ('status', 'header'), ('header', 'status'), ('status', 'status')):
        for form in ('struct', 'newtype', 'newtype_variant'):
            items = tuple((f, part(f)) for f in fields)
            sh = ('struct', items) if form == 'struct' else (form, ('struct', items))
            inst = '%s{%s}' % (form, ','.join(fields))
            ps = run_response(ctx, D, path, sh)
            oks = [p for p in ps if p.kind == 'ret' and not is_err(p)]
            if fields in (('status',), ('status', 'header')):
                ctx.ob(oks, 'response-accepted', inst, 'a response with %s can not be encoded' % list(fields), path)
            for p in oks:
                check_response(ctx, p, fields, inst, path)
    for fields in (('header',), ('header', 'header')):
        inst = 'struct_variant{%s}' % ','.join(fields)
        for p in run_response(ctx, D, path, ('struct_variant', VNAME, tuple((f, part(f)) for f in fields))):
            if p.kind == 'ret' and not is_err(p):
                check_headers(ctx, p, fields, inst, path)
    for key in ('body', 'statuses', ('param', 'key')):
        for form in ('struct', 'struct_variant'):
            items = ((key, part('x')),)
            inst = '%s{%s}' % (form, key if isinstance(key, str) else 'other')
            for p in run_response(ctx, D, path, ('struct', items) if form == 'struct' else ('struct_variant', VNAME, items), finish=False):
                if p.kind != 'ret':
                    continue
                k = p.state.facts.get(('is', canon(key))) if not isinstance(key, str) else None
                if k is not None and k[1] in ('status', 'header'):
                    continue
                ctx.ob(is_err(p), 'unknown-part-refused', inst, 'an unknown response part is accepted silently', path, p)
    client_status(ctx, names)


def check_response(ctx, p, fields, inst, site):
    bs = calls(p, 'build_response')
    if not ctx.ob(len(bs) == 1 and 'status' in fields, 'status-stated', inst, 'a response stating %s is built %d times' % (list(fields), len(bs)), site, p):
        return
    b = bs[0]
    ctx.ob(nv(b[2][0]) == CONN, 'response-connection', inst, 'the response is built on %s' % show(b[2][0])[:80], b[5], p)
    t, bad = status_value(b[2][1])
    ctx.ob(bad is None, 'status-number', inst, bad or '', b[5], p)
    if t is not None:
        good = t == ('shapeval', part('status'))
        if not good and t[0] not in ('int', 'adt', 'bin', 'str') and contains(t, lambda x: x == ('shapeval', part('status'))) and not contains(t, lambda x: x[0] == 'bin'):
            ctx.note('%s: status computed by %s' % (inst, show(t)[:80]))
            good = True
        ctx.ob(good, 'status-number', inst, 'the status sent is %s, not the one stated' % show(t)[:100], b[5], p)
    check_headers(ctx, p, fields, inst, site)


def check_headers(ctx, p, fields, inst, site):
    uses = [e for e in p.events if e[0] == 'use' and e[1] == 'header']
    nh = sum(1 for f in fields if f == 'header')
    ctx.ob(len(uses) == nh, 'header-written', inst, 'the header part is written %d times' % len(uses), site, p)
    made = {e[4]: e for e in p.events if e[0] == 'part'}
    for e in uses:
        ctx.ob(nv(e[3]) == ('shapeval', part('header')), 'header-value', inst, 'the headers are filled with %s' % show(e[3])[:80], site, p)
        mk = made[e[2]]
        ctx.ob(contains(mk[3][0], lambda x: is_call(x, 'build_response')), 'header-target', inst, 'the header part goes to %s' % show(mk[3][0])[:80], mk[5], p)


# --- client
def is_code(t):
    """the status code of the received response"""
    t = nv(t)
    while t[0] == 'cast' and lossless(t[1], t[2]):
        t = nv(t[3])
    return is_call(t, 'code', 'as_u16', 'status_code') and contains(t, lambda x: x == RESP)


def client_status(ctx, names):
    D = EnvDriver(ctx.P)
    path = ctx.need(D.find_adt('RpcResponseDeserializer'), 'type RpcResponseDeserializer')
    b = ctx.need(D.inherent(path, 'new'), 'RpcResponseDeserializer::new')

    def run(sh):
        res = []
        for s, o in D.call(State(), b, [RESP]):
            if o[0] == 'ret':
                res += D.de(s, sh, D.mkref(s, o[1]), path)
        ps = paths(res)
        ctx.track(D.I, ps)
        return ps
    # numeric
    for ty in ('u16', 'u32', 'u64', 'i16', 'i32', 'i64', 'any'):
        for wrap in (None, 'option'):
            leaf = ('r', ty)
            vs = (wrap, leaf) if wrap else leaf
            for form in ('struct', 'map', 'newtype'):
                items = ((('r', 'identifier'), vs), (('r', 'identifier'), part('header')), (('r', 'identifier'), part('more')))
                sh = (form, items) if form != 'newtype' else ('newtype', ('struct', items))
                inst = 'status:%s%s/%s' % (ty, '?' if wrap else '', form)
                good = 0
                for p in run(sh):
                    if p.kind != 'ret':
                        continue
                    vis = [e for e in p.events if e[0] == 'visit']
                    for e in vis:
                        if e[1] in ('visit_none', 'visit_unit'):
                            ctx.ob(False, 'status-delivered', inst, 'the status is delivered as %s' % e[1], e[4], p)
                            continue
                        a = nv(e[2][0])
                        y = e[1][len('visit_'):]
                        while a[0] == 'cast' and lossless(a[1], a[2]):
                            a = nv(a[3])
                        ctx.ob(is_code(a), 'status-delivered', inst, 'the status delivered is %s' % show(a)[:80], e[4], p)
                        ctx.ob(y in INT_BITS and lossless('u16', y), 'status-delivered', inst, 'the status is delivered through %s' % e[1], e[4], p)
                    keys = [k for k, _ in offered_parts(p)]
                    for k, mk in offered_parts(p):
                        if k == 'header' and mk is not None:
                            ctx.ob(mk[1] == 'header' and source_of(mk[3][0], 'headers', RESP), 'header-source', inst, 'the header part is read from %s' % show(mk[3][0])[:80], mk[5], p)
                        if k == 'status':
                            ctx.ob(mk is None, 'status-source', inst, 'the status is read by the %s codec' % (mk and mk[1]), path, p)
                    if is_ok(p):
                        good += 1
                        if None not in keys:
                            ctx.ob(keys == ['status', 'header'], 'response-parts', inst, 'a response is offered as %s' % keys, path, p)
                            ctx.ob(len(vis) == 1, 'status-delivered', inst, 'the status is delivered %d times' % len(vis), path, p)
                ctx.ob(good, 'status-readable', inst, 'a numeric status can not be read', path)
    # by name
    for kind, sh in (('unit', ('enum', 'unit')), ('struct', ('enum', 'struct', ((('r', 'identifier'), part('header')), (('r', 'identifier'), part('more')))))):
        table, dflt = {}, False
        for p in run(sh):
            if p.kind != 'ret' or is_err(p):
                continue
            seeds = [e for e in p.events if e[0] == 'call' and e[1] == 'seed']
            if not seeds:
                continue
            lits = [x for x in subterms(seeds[0][2][1]) if x[0] == 'str']
            code = [v for k, v in p.state.facts.items() if k[0] == 'is' and is_code(k[1])]
            var = [v for k, v in p.state.facts.items() if k[0] == 'var' and k[1][0] == 'field' and is_call(nv(k[1][1]), 'normalize') and contains(k[1], lambda x: x == RESP)]
            if len(lits) == 1 and code:
                table.setdefault(code[0][1], set()).add(lits[0][1])
            elif len(lits) == 1 and var:
                table.setdefault(REGISTRY.get(ctx.P.variant_name(STATUS, var[0])), set()).add(lits[0][1])
            elif len(lits) == 1:
                ctx.ob(var, 'unknown-code-refused', kind, 'a response with an unknown status is decoded as %s' % lits[0][1], path, p)
            else:
                dflt = True
                ctx.note('enum %s: name table computed' % kind)
            keys = [k for k, _ in offered_parts(p)][1:] if False else None
            if kind == 'struct':
                ks = [k for k, _ in part_keys(p)]
                if None not in ks:
                    ctx.ob(ks == ['header'], 'variant-parts', kind, 'a response variant is offered as %s' % ks, path, p)
                for k, mk in part_keys(p):
                    if k == 'header' and mk is not None:
                        ctx.ob(mk[1] == 'header' and source_of(mk[3][0], 'headers', RESP), 'header-source', 'enum', 'the header part is read from %s' % show(mk[3][0])[:80], mk[5], p)
        inv = {v: k for k, v in REGISTRY.items()}
        for code, ns in sorted(table.items()):
            ctx.ob(len(ns) == 1 and inv.get(code) in ns, 'code-to-name', '%s/%d' % (kind, code), 'status %d is decoded as variant %s' % (code, '/'.join(sorted(ns))), path)
        if not dflt:
            for n in names:
                ctx.ob(REGISTRY.get(n) in table, 'code-known', '%s/%s' % (kind, n), 'status %s is not decoded' % REGISTRY.get(n), path)


def part_keys(p):
    """parts offered after the variant name"""
    i = next((i for i, e in enumerate(p.events) if e[0] == 'mark' and e[1] == 'variant'), 0)
    q = Path(p.state, p.kind, p.value)
    q._ev = p.events[i:]
    return offered_parts(q)
