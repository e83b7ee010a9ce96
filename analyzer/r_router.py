"""C07, C08: the routing table is filled and consulted along the same paths."""
from common import *
from rules import rule
from r_codec import decoded_of, raw_segment, over_bytes
import machine

IDENT = ('to_string', 'to_owned', 'clone', 'into', 'from', 'as_str', 'as_ref', 'deref', 'borrow', 'into_boxed_str', 'cloned', 'copied', 'as_mut', 'as_deref')
def ident(t):
    """the value behind views and copies"""
    while True:
        u = nv(t)
        if u[0] == 'call' and u[1].split('::')[-1] in IDENT and u[2]:
            u = nv(u[2][0])
        if u == t:
            return t
        t = u


def last(t):
    return t[1].split('::')[-1] if t[0] == 'call' else ''


MAPS = ('HashMap', 'BTreeMap', 'HashSet', 'IndexMap')


def map_op(t, *names):
    """t is the result of a map operation"""
    return t[0] == 'call' and last(t) in names and any(m in t[1] for m in MAPS)


def ceq(a, b):
    return canon(nvd(a)) == canon(nvd(b))


def variant_fact(p, t):
    f = p.state.facts
    r = f.get(('var', canon(t)))
    if r is None:
        # Option/Result have two variants
        n = f.get(('notvar', canon(t)))
        if n and len(n) == 1:
            return 1 - list(n)[0]
    return r


def unmoved(v, nd):
    """v is the loop variable nd itself (or a reborrow of it)"""
    while True:
        if v[0] == 'ref' and v[1][0] == '*' and not v[2]:
            v = v[1][1]
        elif v[0] in ('&', 'deref'):
            v = v[1]
        else:
            break
    if v[0] == 'phi' and nd[0] == 'phi':
        return v[1][:2] == nd[1][:2] and v[2] == nd[2]
    return canon(v) == canon(nd)


def carried(p, phi):
    """the value which a loop-carried variable has at the end of the iteration p"""
    w = phi[2]
    for n in range(len(w), 0, -1):
        o = w[:n]
        if o in p.state.objs:
            v = p.state.objs[o]
            for i in w[n:]:
                if i == 'from':
                    u = window(v)
                    v = u[1] if u else ('int', 0)
                elif v[0] in ('adt',) and i < len(v[3]):
                    v = v[3][i]
                elif v[0] == 'closure' and i < len(v[2]):
                    v = v[2][i]
                else:
                    return None
            return v
    return None


def payload(t):
    """t is what is inside the Some/Ok of X -> X"""
    t = ident(t)
    while t[0] == 'field' and t[2] in ('Some', 'Ok'):
        return ident(t[1])
    return None


def request_of(p):
    r = [e[3] for e in p.events if e[0] == 'await' and e[2] == 'ok' and is_call(e[1], 'read_request')]
    return r[0] if r else None


def is_method(t, req):
    t = ident(t)
    return t[0] == 'call' and t[1].startswith('miasht::server::Request') and last(t) == 'method' and ceq(t[2][0], req)


def is_path(t, req):
    t = ident(t)
    return t[0] == 'call' and t[1].startswith('miasht::server::Request') and last(t) == 'path' and ceq(t[2][0], req)


def parsed(p):
    """[(term, kind, target)] parses of the request target"""
    out = []
    for e in p.events:
        if e[0] == 'call' and e[1].startswith('url::'):
            n = last(e[3])
            if n == 'parse' and 'ParseOptions' in e[1]:
                out.append((e[3], 'relative', e[2][1], e[5]))
            elif n == 'join':
                out.append((e[3], 'relative', e[2][1], e[5]))
            elif n == 'parse':
                out.append((e[3], 'absolute', e[2][0], e[5]))
    return out


def node_phis(t):
    return [x for x in subterms(t) if x and x[0] == 'phi']


def statuses(ctx, e):
    """names of the miasht statuses in the value that is encoded"""
    P = ctx.P
    out = set()
    for x in subterms(('t',) + tuple(e[3])):
        if x and x[0] == 'adt' and x[1] == 'miasht::Status':
            out.add(P.variant_name('miasht::Status', x[2]))
    return out


class Walk:
    """the segment loop of a path: its iterator, last `next`, the node variable"""

    def __init__(self, p):
        self.nexts = []
        for i, e in enumerate(p.events):
            if e[0] == 'call' and e[1] == 'std::iter::Iterator::next' and e[3][0] == 'next':
                src = ident(root(e[3][1]))
                if contains(src, lambda x: is_call(x, 'path_segments')) and not contains(src, lambda x: x[0] == 'next'):
                    self.nexts.append((i, e[3], src))
        self.last = self.nexts[-1] if self.nexts else None


@rule('C07', 'Every abstract path of the per-connection state machine from reading a request to the handler call or to the error response: the handler called is the payload of a lookup of the request\'s own method in the node reached after the segment iterator is exhausted; each iteration of the walk moves to the child stored under the percent-decoded segment, or to the wildcard child only where the former is known absent; 400/404/405 are answered exactly on the paths whose facts call for them.',
      ['url::Url::path_segments yields the segments of the request path in order; std HashMap::get finds an entry iff it was inserted under an equal key'])
def c07(ctx):
    for label, M, ps in machine.exchanges(ctx):
        routing(ctx, M.I, ps)


def routing(ctx, I, ps):
    handlers = 0
    leafmaps, childmaps = set(), set()
    routed = [p for p in ps if request_of(p) is not None]
    ctx.need(routed, 'paths of the connection future that read a request')
    # --- handler calls
    for p in routed:
        req = request_of(p)
        for i, e in enumerate(p.events):
            if e[0] != 'call' or e[1] != '<fn value>':
                continue
            handlers += 1
            f = e[2][0]
            gets = [x for x in subterms(f) if map_op(x, 'get', 'get_mut', 'index', 'remove', 'get_key_value') or
                    x[0] == 'call' and x[1] == 'std::ops::Index::index' and is_method(x[2][1], req)]
            site = e[5]
            if not gets:
                ctx.note('C07: the handler called at %s is %s, not a map entry' % (site, show(nv(f))[:80]))
            else:
                g = gets[0]
                ctx.ob(is_method(g[2][1], req), 'lookup-by-method', 'handler', 'the handler is looked up under %s, not under the method of the request' % show(nv(g[2][1]))[:100], site, p)
                ctx.ob(payload(f) == ident(g) or last(g) == 'index' or payload(f) is None, 'lookup-by-method', 'handler/value', 'the handler called is %s, not the one found' % show(nv(f))[:100], site, p)
                leafmaps.add(map_field(g))
            a = [ident(x) for x in e[2][1:]]
            ctx.ob(any(ceq(x, req) for x in a), 'handler-request', 'request', 'the handler is not given the request that was read', site, p)
            urls = [x for x in a if x[0] == 'field' and x[2] == 'Ok' and any(ceq(ident(x[1]), t) for t, _, _, _ in parsed(p))]
            ctx.ob(urls, 'handler-request', 'url', 'the handler is not given the URL of the request target', site, p)
            w = Walk(p)
            if w.last is None:
                if any(x[0] == 'call' and x[1].startswith('rec:') for x in p.events):
                    ctx.note('C07: recursive walk, steps not followed')
                else:
                    ctx.note('C07: no walk over the path segments recognised')
                continue
            ctx.ob(w.last[0] < i and variant_fact(p, w.last[1]) == 0, 'whole-path', 'handler', 'the handler is called although segments of the path are left', site, p)
            for _, nx, src in w.nexts:
                check_source(ctx, p, src, site)
            if gets:
                phis = [x for x in node_phis(gets[0][2][0]) if len(x[2]) and x != nv(w.last[1])]
                ctx.ob(phis or p.kind == 'loopback', 'whole-path', 'node', 'the handler is taken from %s, which does not depend on the path' % show(nv(gets[0][2][0]))[:80], site, p)
    ctx.ob(handlers, 'handler-reachable', 'connection', 'no path from a request to a handler')
    # --- the target is parsed unchanged
    for p in routed:
        req = request_of(p)
        for t, kind, arg, site in parsed(p):
            check_target(ctx, p, req, kind, arg, site)
    # --- steps of the walk
    steps = 0
    kinds = set()
    walkers = set()
    for p in routed:
        w = Walk(p)
        if w.last is not None and p.kind == 'loopback':
            for e in child_gets(p, w.last[0]):
                walkers |= {(p.value, x) for x in node_phis(e[3][2][0]) if x != root(x)}
    for p in routed:
        w = Walk(p)
        if w.last is None:
            continue
        if p.kind == 'loopback':
            lo = max([j for j, e in enumerate(p.events) if e[0] == 'loop' and e[1] == p.value], default=None)
            if lo is None or w.last[0] < lo or any(e[0] == 'loop' for e in p.events[lo + 1:w.last[0]]):
                continue
            steps += 1
            k = check_step(ctx, I, p, w, childmaps, walkers)
            if k:
                kinds.add(k)
    if steps and 'search' not in kinds:
        ctx.ob('const' in kinds or not kinds, 'walk-step', 'constant', 'no step of the walk follows an equal constant segment')
        ctx.ob('wild' in kinds or not kinds, 'walk-step', 'variable', 'no step of the walk follows a variable segment')
    # --- error answers
    lm = leafmaps
    seen = set()
    for p in routed:
        codes = [e for e in p.events if e[0] == 'code' and e[1] == 'serialize']
        if not codes or p.kind == 'panic' and p is None:
            continue
        e = codes[0]
        st = statuses(ctx, e)
        if len(st) != 1:
            ctx.note('C07: status of an error response not recognised: %s' % sorted(st))
            continue
        (s,) = st
        want, why = expected(ctx, I, p, lm)
        if want is None:
            if why == 'no path segments' and steps and handlers:
                ctx.ob(other_cause(I, p, s), 'error-status', 'walked', 'answers %s without looking up the path' % s, e[5], p)
            ctx.note('C07: %s' % why)
            continue
        seen.add(want)
        ctx.ob(s == want, 'error-status', '%s' % why, 'answers %s where %s calls for %s' % (s, why, want), e[5], p)
    ctx.note('C07: %d handler calls, %d steps, answers for %s' % (handlers, steps, sorted(seen)))


def other_cause(I, p, s):
    """an error answer for which something else than the path is to blame"""
    return s == 'BadRequest' and any(k[0] in ('var', 'notvar') and canon(k[1]) in I.rtypes and variant_fact(p, k[1]) == 1 for k in p.state.facts) or \
        any(k[0] == 'b' and contains(k[1], lambda x: is_call(x, 'cannot_be_a_base', 'has_host', 'scheme')) for k in p.state.facts)


class Quiet:
    def ob(self, good, *a):
        return good

    def note(self, *a):
        pass


def unfit(ctx, I, p):
    """an error answer that neither the target nor the routing calls for -> (site, reason)"""
    codes = [e for e in p.events if e[0] == 'code' and e[1] == 'serialize']
    st = statuses(ctx, codes[0]) if codes and request_of(p) is not None else ()
    if len(st) != 1:
        return None
    (s,) = st
    want, why = expected(Quiet(), I, p, set())
    if why == 'a target that is not a URL' and s != want:
        return codes[0][5], 'a request target that cannot be decoded is answered %s' % s
    if why == 'no path segments' and not other_cause(I, p, s):
        return codes[0][5], 'a request is answered %s although it was neither found malformed nor looked up' % s
    return None


def map_field(g):
    m = nv(g[2][0])
    return m[3] if m[0] == 'field' else None


def check_source(ctx, p, src, site):
    """the iterator is path_segments() of the parsed URL, unfiltered"""
    t = ident(src)
    while t[0] == 'call' and last(t) in ('into_iter', 'by_ref', 'peekable', 'fuse', 'iter') or t[0] == 'iterof':
        t = ident(t[2][0] if t[0] == 'call' else t[1])
    x = payload(t)
    ok_ = x is not None and is_call(x, 'path_segments')
    if not ok_:
        bad = [y for y in subterms(t) if y[0] == 'call' and last(y) in ('skip', 'take', 'filter', 'rev', 'step_by', 'skip_while', 'take_while')]
        if bad:
            ctx.ob(False, 'whole-path', 'segments/' + last(bad[0]), 'the walk does not go over all segments in order: %s' % show(t)[:100], site, p)
        else:
            ctx.note('C07: segments taken from %s' % show(t)[:100])
        return
    u = ident(x[2][0])
    ctx.ob(u[0] == 'field' and u[2] == 'Ok' and any(ceq(ident(u[1]), t2) for t2, _, _, _ in parsed(p)), 'whole-path', 'segments', 'the walk does not go over the request\'s own path', site, p)


def starts(x, pre):
    """whether the test x of a text is true of texts that start with pre (None: it is not understood)"""
    if not is_call(x, 'starts_with') or len(x[2]) != 2:
        return None
    lit = nv(x[2][1])
    if lit[0] == 'int':
        lit = ('str', chr(lit[1]))
    if lit[0] != 'str':
        return None
    n = min(len(pre), len(lit[1]))
    if pre[:n] != lit[1][:n]:
        return False
    return True if len(lit[1]) <= len(pre) else 'depends'


def check_target(ctx, p, req, kind, arg, site):
    a = ident(arg)
    if kind == 'relative':
        if is_path(a, req):
            ctx.ob(True, 'target', 'relative')
            # a target that starts with two slashes is a path, not a host; Url takes a backslash for a slash
            for pre in ('//', '/\\'):
                out = other = False
                for k, v in p.state.facts.items():
                    x = k[1]
                    if not isinstance(x, tuple) or not contains(x, lambda y: is_path(y, req) if y[0] == 'call' else False) or contains(x, lambda y: is_call(y, 'parse', 'join')):
                        continue
                    h = starts(x, pre) if k[0] == 'b' else None
                    if h is None:
                        other = True
                    elif h != 'depends' and h != v:
                        out = True
                if not out and other:
                    ctx.note('C07: a test of the request target was not understood')
                else:
                    ctx.ob(out, 'target', 'network-path/' + pre, 'a target that starts with %s is resolved as a host instead of a path' % pre, site, p)
            return
    else:
        fa = [x for x in subterms(a) if x[0] == 'fmtarg']
        if len(fa) == 1 and is_path(fa[0][3], req):
            ctx.ob(True, 'target', 'absolute')
            return
        if is_path(a, req):
            ctx.ob(False, 'target', 'absolute', 'a relative target is parsed without a base', site, p)
            return
    if not contains(a, lambda x: is_path(x, req) if x[0] == 'call' else False):
        if contains(a, lambda x: x[0] in ('param', 'await')):
            ctx.ob(False, 'target', kind, 'the URL is made from %s, not from the request target' % show(a)[:100], site, p)
        return
    bad = [x for x in subterms(a) if x[0] == 'call' and last(x) in BAD]
    if bad:
        ctx.ob(False, 'target', kind + '/changed', 'the request target is changed by %s before it is parsed' % last(bad[0]), site, p)
    else:
        ctx.note('C07: request target parsed from %s' % show(a)[:100])


def key_kind(I, k, seg):
    """'const' | 'none' | ('bad', why) | None for a child key and the current raw segment"""
    inner = k
    k = nv(k)
    if k[0] == 'adt' and k[1] == OPT:
        if k[2] == 0:
            return 'none'
        inner = k[3][0]
    elif k[0] == 'adt' and k[1].endswith('PathSegment'):
        if not k[3]:
            return 'none'
        inner = k[3][0]
    raw = ident(inner)
    d = decoded_of(I, inner) or decoded_of(I, strip_ident(inner))
    if d is not None:
        return 'const' if ceq(d, seg) else ('bad', 'another segment')
    if ceq(raw, seg):
        return ('bad', 'the segment as it is escaped in the URL')
    if contains_p(I, raw, seg):
        b = [x for x in subterms(raw) if x[0] == 'call' and last(x) in BAD]
        return ('bad', 'the segment changed by %s' % last(b[0])) if b else None
    return None


def strip_ident(t):
    while True:
        u = t
        while u[0] in ('&', 'deref', 'box'):
            u = u[1]
        if u[0] == 'call' and u[1].split('::')[-1] in IDENT and u[2]:
            t = u[2][0]
        else:
            return u


def contains_p(I, t, x):
    return any(ceq(y, x) for y in prov(I, t))


def child_gets(p, lo):
    return [e for e in p.events[lo:] if e[0] == 'call' and map_op(e[3], 'get', 'get_mut', 'contains_key', 'index')]


def check_step(ctx, I, p, w, childmaps, walkers):
    """one iteration of the walk: the node variable becomes the right child; -> 'const' | 'wild' | None"""
    i, nx, src = w.last
    seg = ('field', nx, 'Some', '0')
    gets = child_gets(p, i)
    if contains_loop(p, i):
        ctx.note('C07: the children are searched by a loop of its own')
        return 'search'
    if not gets:
        # an iteration that ends without a lookup
        if not any(lid == p.value for lid, _ in walkers):
            return None     # a loop that only prepares the walk
        states = [(nd, carried(p, nd)) for lid, nd in walkers]
        if any(v is not None and (v[0] == 'adt' and v[1] == RES and v[2] == 1 or unmoved(v, nd) and variant_fact(p, nd) == 1) for nd, v in states):
            return None     # the failure is carried along
        moved = [(nd, v) for nd, v in states if v is not None and not unmoved(v, nd)]
        if moved:
            # to a child that needs no lookup
            ctx.ob(not any(contains(v, lambda x: x == nd) for nd, v in moved), 'walk-step', 'prefer-constant', 'a wildcard is followed although an equal constant segment may exist', '', p)
            return None
        ctx.ob(False, 'walk-step', 'ignored', 'a segment of the path is skipped without a lookup', '', p)
        return None
    nodes = []
    for e in gets:
        for x in node_phis(e[3][2][0]):
            if x not in nodes and not x == root(x):
                nodes.append(x)
    cands = []
    for nd in nodes:
        v = carried(p, nd)
        if v is not None:
            cands.append((nd, v))
    if not nodes and any(lid == p.value for lid, _ in walkers):
        ctx.ob(False, 'walk-step', 'from-node', 'the next node is looked up in another node than the current one', '', p)
        return None
    if not cands:
        ctx.note('C07: loop variable of the walk not recognised')
        return None
    nd, v = cands[0]
    if unmoved(v, nd):
        ctx.ob(False, 'walk-step', 'ignored', 'a segment of the path leaves the walk where it was', '', p)
        return None
    val = strip_view(v)
    consts = [e for e in gets if key_kind(I, e[3][2][1], seg) == 'const' and contains(e[3][2][0], lambda x: x == nd)]
    known_absent = any(absent(p, e[3]) for e in consts)
    g = payload(val)
    if g is None and val[0] == 'call' and last(val) in ('index', 'unwrap', 'expect'):
        g = val
    if g is not None and map_op(g, 'get', 'get_mut', 'index'):
        ctx.ob(contains(g[2][0], lambda x: x == nd), 'walk-step', 'from-node', 'the next node is looked up in another node than the current one', '', p)
        childmaps.add(map_field(g))
        kk = key_kind(I, g[2][1], seg)
        if kk == 'const':
            ctx.ob(True, 'walk-step', 'const-key')
            return 'const'
        if kk == 'none':
            if consts or not any(key_kind(I, e[3][2][1], seg) is None for e in gets):
                ctx.ob(known_absent, 'walk-step', 'prefer-constant', 'a wildcard is followed although an equal constant segment may exist', '', p)
            return 'wild'
        if kk is None:
            ctx.note('C07: child key %s not recognised' % show(nv(g[2][1]))[:100])
            return None
        ctx.ob(False, 'walk-step', 'key', 'a child is looked up under %s instead of the decoded segment' % kk[1], '', p)
        return None
    if g is None or g[0] != 'field':
        g = next((x for x in subterms(canon(val)) if x[0] == 'field' and x[2] is None and x[3] not in ('0', 'pointer') and canon(nv(x[1])) == canon(nd)), None)
    if g is not None and g[0] == 'field' and contains(g, lambda x: canon(x) == canon(nd)):
        # a wildcard child in a field of its own
        ctx.ob(known_absent or not consts, 'walk-step', 'prefer-constant', 'a wildcard is followed although an equal constant segment may exist', '', p)
        return 'wild'
    ctx.note('C07: next node %s not recognised' % show(val)[:100])
    return None


def strip_view(t):
    return ident(t)


def contains_loop(p, i):
    """a loop of its own that looks at something other than the bytes of the segment"""
    js = [j for j, e in enumerate(p.events) if e[0] == 'loop' and j > i] + [len(p.events)]
    for a, b in zip(js, js[1:]):
        if any(e[0] == 'call' and e[1] == 'std::iter::Iterator::next' and not over_bytes(e[3]) for e in p.events[a:b]):
            return True
    return False


def absent(p, g):
    if map_op(g, 'contains_key'):
        return p.state.facts.get(('b', canon(g))) is False
    return variant_fact(p, g) == 0


def present(p, g):
    if map_op(g, 'contains_key'):
        return p.state.facts.get(('b', canon(g))) is True
    return variant_fact(p, g) == 1


def expected(ctx, I, p, leafmaps):
    """the status which the facts of p call for -> (status, situation)"""
    req = request_of(p)
    pr = parsed(p)
    if not pr:
        return None, 'no parse of the target'
    t = pr[-1][0]
    f = variant_fact(p, t)
    if f == 1:
        return 'BadRequest', 'a target that is not a URL'
    segs = [e[3] for e in p.events if e[0] == 'call' and is_call(e[3], 'path_segments')]
    if not segs:
        return None, 'no path segments'
    if variant_fact(p, segs[0]) == 0:
        return 'NotFound', 'a target without a path'
    w = Walk(p)
    if w.last is None:
        return None, 'walk not recognised'
    i, nx, src = w.last
    nf = variant_fact(p, nx)
    if nf == 1:
        gets = child_gets(p, i)
        if not gets:
            other = [e for e in p.events[i + 1:] if e[0] == 'call' and e[1] == 'std::iter::Iterator::next' and not contains(canon(e[3]), lambda x: x == canon(nx))]
            if other:
                return None, 'the children are looked up in another way'
            return 'BadRequest', 'a malformed segment'
        seg = ('field', nx, 'Some', '0')
        kks = [key_kind(I, e[3][2][1], seg) for e in gets]
        if any(k is None for k in kks):
            return None, 'child key not recognised'
        for e in gets:
            ctx.ob(absent(p, e[3]) or not present(p, e[3]), 'error-status', 'child-present', 'an error is answered although the next segment matches', e[5], p)
        return 'NotFound', 'an unknown segment'
    if nf == 0:
        lg = [e for e in p.events[i:] if e[0] == 'call' and map_op(e[3], 'get', 'get_mut', 'contains_key') and is_method(e[3][2][1], req)]
        if not lg:
            odd = [e for e in p.events[i:] if e[0] == 'call' and map_op(e[3], 'get', 'get_mut')]
            if odd:
                return None, 'leaf lookup not recognised'
        if lg and present(p, lg[-1][3]):
            ctx.ob(False, 'error-status', 'handler-present', 'an error is answered although a handler is registered for the method', lg[-1][5], p)
            return None, 'handler present'
        e = emptiness(p, i, leafmaps)
        if e is True:
            return 'NotFound', 'a path that is only a prefix of entry points'
        if e is False:
            return ('MethodNotAllowed', 'an entry point without the method') if lg else (None, 'no leaf lookup')
        if e is None and lg:
            ctx.ob(False, 'error-status', 'prefix-or-method', 'paths that are only a prefix of an entry point and entry points without the method are answered alike', lg[-1][5], p)
        return None, 'emptiness of the leaf not recognised'
    return None, 'walk state unknown'


def emptiness(p, i, leafmaps):
    """True/False when a fact says that the map of handlers is (not) empty, 'unknown' for other facts on it, None without any"""
    def leaf(m):
        m = nv(m)
        return m[0] == 'field' and (m[3] in leafmaps or not leafmaps)
    other = None
    for k, v in p.state.facts.items():
        t = k[1]
        if not isinstance(t, tuple):
            continue
        if k[0] == 'b' and map_op(t, 'is_empty') and leaf(t[2][0]):
            return v
        for x in subterms(t):
            if x[0] in ('call', 'len') and (map_op(x, 'len') and leaf(x[2][0]) or x[0] == 'len' and leaf(x[1])):
                if k[0] == 'b' and t[0] == 'eq' and ('int', 0) in t:
                    return v
                if k[0] == 'is':
                    return v == ('int', 0)
                if k[0] == 'b':
                    other = 'unknown'
            if x[0] == 'next' and leafmaps and contains(x, lambda y: leaf(y) if y[0] == 'field' else False) and k[0] == 'var':
                return v == 0
    return other


# ---------------------------------------------------------------------- C08
def entry_segments(t):
    """t iterates over / is the segments of Procedure::entry_point()"""
    t = ident(t)
    while t[0] == 'call' and last(t) in ('iter', 'into_iter', 'segments', 'fuse', 'peekable') or t[0] == 'iterof':
        t = ident(t[2][0] if t[0] == 'call' else t[1])
    if t[0] == 'field' and t[3] == 'segments':
        t = ident(t[1])
    return t[0] == 'call' and t[1].endswith('Procedure::entry_point')


def stored_closure(I, st, v):
    v = nv(v)
    while v[0] in ('box', 'call') and v[0] == 'call' and last(v) in ('new', 'from', 'into', 'pin') and v[2]:
        v = nv(v[2][0])
    return v[0] == 'closure'


@rule('C08', 'Every abstract path of RpcServerBuilder::register: success implies exactly one insertion of the handler closure under Procedure::method(), on a map in which that key is known absent, at the node reached after the loop over all segments of Procedure::entry_point(); each iteration moves to the entry under the constant of a constant segment or the wildcard key of a variable segment; failure implies no insertion.',
      ['std HashMap::entry/insert/contains_key follow their documentation'])
def c08(ctx):
    from r_entry import entry_points
    entry_points(ctx)
    M, got, ps = machine.registered(ctx)
    I = M.I
    oks = [p for p in ps if is_ok(p)]
    ctx.need(oks, 'successful paths of RpcServerBuilder::register')
    errs = [p for p in ps if is_err(p)]
    ctx.ob(errs, 'conflict-refused', 'register', 'registering a second handler for the same entry point and method never fails')
    fields = set()
    normal = 0
    guarded = False
    for p in oks:
        ins = inserts(I, p)
        ctx.ob(len(ins) == 1, 'one-insertion', 'register', 'a successful registration stores the handler %d times' % len(ins), '', p)
        if len(ins) != 1:
            continue
        i, e, kind = ins[0]
        site = e[5]
        if kind == 'insert':
            m, key = e[2][0], e[2][1]
            guard = any(x[0] == 'call' and map_op(x[3], 'contains_key', 'get', 'get_mut') and ceq(map_root(x[3][2][0]), map_root(m)) and ceq(ident(x[3][2][1]), ident(key)) and absent(p, x[3])
                        for x in p.events[:i])
            guarded = guarded or guard
            ctx.ob(guard, 'conflict-refused', 'absent', 'the handler is stored without the method being known free: an earlier handler can be replaced', site, p)
        elif kind == 'entry':
            en = [x for x in subterms(e[3]) if map_op(x, 'entry')]
            if not en:
                ctx.note('C08: insertion at %s not understood' % site)
                continue
            m, key = en[0][2][0], en[0][2][1]
            vac = 'VacantEntry' in e[1] or any(v == vacant_index(ctx) and ceq(k[1], en[0]) for k, v in p.state.facts.items() if k[0] == 'var')
            guarded = guarded or vac
            ctx.ob(vac, 'conflict-refused', 'absent', 'the handler is stored through an entry that may be occupied', site, p)
        else:
            ctx.note('C08: insertion at %s not understood' % site)
            continue
        k = ident(key)
        ctx.ob(k[0] == 'call' and k[1].endswith('Procedure::method'), 'under-own-method', 'register', 'the handler is stored under %s, not under the method of its procedure' % show(k)[:100], site, p)
        fields.add(nv(m)[3] if nv(m)[0] == 'field' else None)
        # the walk
        nx = walk_nexts(p, i)
        if not nx:
            ctx.note('C08: walk over the segments not recognised')
            continue
        j, n, src = nx[-1]
        ctx.ob(variant_fact(p, n) == 0, 'all-segments', 'register', 'the handler is stored before all segments of the entry point are walked', site, p)
        seg_source(ctx, p, src, site)
        if entry_segments(src):
            normal += 1
        ctx.ob(node_phis(m), 'all-segments', 'node', 'the handler is stored in %s, whatever its entry point' % show(nv(m))[:80], site, p)
    ctx.ob(normal or ctx.notes, 'all-segments', 'own-entry-point', 'no registration walks the segments of the procedure\'s entry point')
    for p in errs:
        ctx.ob(not inserts(I, p), 'conflict-refused', 'no-effect', 'a refused registration still stores its handler', '', p)
        # refused only where the method is already taken
        taken, asked = False, False
        for x in p.events:
            if x[0] != 'call':
                continue
            if map_op(x[3], 'contains_key', 'get', 'get_mut') and is_own_method(x[3][2][1]):
                asked = True
                taken = taken or present(p, x[3])
            elif map_op(x[3], 'entry') and is_own_method(x[3][2][1]):
                asked = True
                taken = taken or any(k[0] == 'var' and v != vacant_index(ctx) and ceq(k[1], x[3]) for k, v in p.state.facts.items())
                taken = taken or any(k[0] == 'notvar' and vacant_index(ctx) in v and ceq(k[1], x[3]) for k, v in p.state.facts.items())
        if asked or guarded:
            ctx.ob(taken, 'refused-only-on-conflict', 'register', 'a registration is refused although no handler is known to exist for its method at its entry point', '', p)
        else:
            ctx.note('C08: the reason of a refused registration is not understood')
    steps = set()
    iters = []
    for p in ps:
        if p.kind != 'loopback':
            continue
        nx = walk_nexts(p, len(p.events))
        if not nx:
            continue
        lo = max([j for j, e in enumerate(p.events) if e[0] == 'loop' and e[1] == p.value], default=None)
        if lo is None or nx[-1][0] < lo:
            continue
        iters.append((p, nx[-1], lo))
    walkers = {x for p, nx, lo in iters for e in step_ops(p, nx[0]) for x in node_phis(e[3][2][0])}
    for p, nx, lo in iters:
        steps.add(insert_step(ctx, I, p, nx, lo, walkers))
    if steps - {None}:
        ctx.ob('const' in steps, 'key-of-segment', 'constant', 'constant segments are not stored as such')
        ctx.ob('wild' in steps, 'key-of-segment', 'variable', 'variable segments are not stored as wildcards')
    # both sides use the same tables
    M2, cps = machine.connection(ctx, 3)
    rf = set()
    for p in cps:
        for e in p.events:
            if e[0] == 'call' and e[1] == '<fn value>':
                for x in subterms(e[2][0]):
                    if map_op(x, 'get', 'get_mut', 'index'):
                        rf.add(map_field(x))
                        break
    if None not in rf and None not in fields and rf and fields:
        ctx.ob(rf == fields, 'same-table', 'leaf', 'handlers are stored in %s but looked up in %s' % (sorted(fields), sorted(rf)))


def is_own_method(k):
    k = ident(k)
    return k[0] == 'call' and k[1].endswith('Procedure::method')


def vacant_index(ctx):
    for n in ('std::collections::hash_map::Entry', 'std::collections::btree_map::Entry'):
        if n in ctx.P.adts:
            return ctx.P.variant_index(n, 'Vacant')
    return 1


def map_root(m):
    return nv(m)


def inserts(I, p):
    """(index, event, kind) of the events that store the handler closure"""
    out = []
    for i, e in enumerate(p.events):
        if e[0] != 'call':
            continue
        n = last(e[3]) if e[3][0] == 'call' else e[1].split('::')[-1]
        n = e[1].split('::')[-1]
        if n in ('insert', 'or_insert', 'insert_entry', 'push', 'or_insert_with', 'try_insert', 'replace'):
            if any(stored_closure(None, None, a) and is_register(I, a) for a in e[2][1:]):
                if n == 'insert' and any(m in e[1] for m in MAPS) and len(e[2]) == 3:
                    out.append((i, e, 'insert'))
                elif 'Entry' in e[1]:
                    out.append((i, e, 'entry'))
                else:
                    out.append((i, e, '?'))
    return out


def is_register(I, a):
    v = nv(a)
    while v[0] == 'call' and v[2]:
        v = nv(v[2][0])
    return v[0] == 'closure' and machine.is_handler(I, v)


def walk_nexts(p, upto):
    out = []
    for i, e in enumerate(p.events[:upto]):
        if e[0] == 'call' and e[1] == 'std::iter::Iterator::next' and e[3][0] == 'next':
            src = ident(root(e[3][1]))
            if entry_segments(src) or src[0] == 'iterof' and contains(src, lambda x: x[0] == 'static'):
                out.append((i, e[3], src))
            elif contains(src, lambda x: x[0] == 'call' and x[1].endswith('Procedure::entry_point')):
                out.append((i, e[3], src))
    return out


def seg_source(ctx, p, src, site):
    if entry_segments(src):
        ctx.ob(True, 'all-segments', 'source')
        return
    if contains(src, lambda x: x[0] == 'call' and x[1].endswith('Procedure::entry_point')):
        bad = [x for x in subterms(src) if x[0] == 'call' and last(x) in ('skip', 'take', 'filter', 'rev', 'step_by', 'skip_while', 'take_while')]
        if bad:
            ctx.ob(False, 'all-segments', 'source/' + last(bad[0]), 'not all segments of the entry point are walked in order', site, p)
        else:
            ctx.note('C08: segments from %s' % show(src)[:80])
        return
    # a fixed list of segments: only for an entry point known to be empty
    empty = False
    for k, v in p.state.facts.items():
        t = k[1]
        if not isinstance(t, tuple) or not contains(t, lambda x: x[0] == 'call' and x[1].endswith('Procedure::entry_point')):
            continue
        if k[0] == 'b' and t[0] == 'eq' and ('int', 0) in t and v is True:
            empty = True
        if k[0] == 'is' and v == ('int', 0):
            empty = True
        if k[0] == 'b' and t[0] == 'call' and last(t) == 'is_empty' and v is True:
            empty = True
        if k[0] == 'b' and t[0] == 'lt' and (v is False and t[1] == ('int', 0) or v is True and t[2] == ('int', 1)):
            empty = True
    ctx.ob(empty, 'all-segments', 'source/fixed', 'a fixed path is used for an entry point that has segments', site, p)


def step_ops(p, i):
    return [e for e in p.events[i:] if e[0] == 'call' and map_op(e[3], 'entry', 'get_mut', 'insert', 'get', 'contains_key')]


def insert_step(ctx, I, p, nx, lo, walkers):
    i, n, src = nx
    ops = step_ops(p, i)
    elem = ('field', n, 'Some', '0')
    res = None
    VAR, VAL = ctx.P.variant_index('procedure::PathSegment', 'Var'), ctx.P.variant_index('procedure::PathSegment', 'Val')
    ev = p.state.facts.get(('var', canon(elem)))
    if not ops:
        # wildcard children kept apart: the walk has to move on all the same
        moves = [(nd, carried(p, nd)) for nd in walkers]
        moves = [(nd, v) for nd, v in moves if v is not None]
        moves = [m for m in moves if m[0][2][0] == 'L'] or moves
        if not moves:
            ctx.note('C08: a step of the walk without a map operation')
            return None
        ctx.ob(any(not unmoved(v, nd) for nd, v in moves), 'key-of-segment', 'descend', 'the walk does not move on to the node of the segment', '', p)
        if ev == VAR:
            return 'wild'
        ctx.note('C08: a step of the walk without a map operation')
        return None
    for e in ops:
        g = e[3]
        key = nv(g[2][1])
        ctx.ob(node_phis(g[2][0]), 'key-of-segment', 'from-node', 'a segment is stored in %s, not in the node reached so far' % show(nv(g[2][0]))[:80], e[5], p)
        k = key
        if k[0] == 'adt' and k[1] == OPT:
            if k[2] == 0:
                ctx.ob(ev != VAL, 'key-of-segment', 'wildcard', 'a constant segment is stored as a wildcard', e[5], p)
                if ev == VAL:
                    return 'bad'
                res = 'wild' if ev == VAR or ev is None else None
                continue
            k = nv(k[3][0])
        if ceq(k, elem):
            ctx.note('C08: segments used as keys directly')
            return None
        if ev == VAR:
            if key[0] == 'adt':
                ctx.ob(False, 'key-of-segment', 'variable', 'a variable segment is stored under the constant key %s' % show(key)[:60], e[5], p)
                return 'bad'
            continue
        k2 = ident(k)
        if k2[0] == 'field' and k2[2] == 'Val' and ceq(k2[1], elem):
            ctx.ob(True, 'key-of-segment', 'const-key')
            res = 'const'
        elif contains(k2, lambda x: ceq(x, elem)):
            bad = [x for x in subterms(k2) if x[0] == 'call' and last(x) in BAD]
            if bad:
                ctx.ob(False, 'key-of-segment', 'changed', 'a constant segment is stored changed by %s' % last(bad[0]), e[5], p)
            else:
                ctx.note('C08: key %s not recognised' % show(k2)[:80])
                return None
        elif k2[0] == 'str':
            ctx.ob(False, 'key-of-segment', 'fixed', 'segments are stored under the fixed key %s' % show(k2)[:60], e[5], p)
            return 'bad'
    # the walk goes on in the child
    nds = []
    for e in ops:
        for x in node_phis(e[3][2][0]):
            if x not in nds:
                nds.append(x)
    nds = [nd for nd in nds if carried(p, nd) is not None]
    nds = [nd for nd in nds if nd[2][0] == 'L'] or nds
    vals = [carried(p, nd) for nd in nds]
    if vals:
        moved = any(not unmoved(v, nd) for v, nd in zip(vals, nds))
        ctx.ob(moved, 'key-of-segment', 'descend', 'the walk does not move on to the node of the segment', '', p)
    return res
