"""C21, C22: problem details and the body-format helpers."""
from common import *
from rules import rule
from r_router import ident, last, ceq, variant_fact
from r_server import view_bytes, bodyid


# ------------------------------------------------------------------ C22
def exported(ctx, mod, name):
    """the body of the function visible as mod::name"""
    for m, n, target, kind in ctx.P.d['exports']:
        if m == mod and n == name and kind == 'Fn':
            return ctx.P.root_fn(target)
    return None


def fmt_of(c, side):
    """(format, pretty) of a call which converts between values and a format"""
    if c[0] != 'call':
        return None
    n = c[1].lower()
    l = last(c)
    if not (l.startswith('to_') if side == 'ser' else l.startswith('from_')):
        return None
    crate = n.split('::')[0].lstrip('<')
    if crate in ('serdeconv', 'serde_json', 'rmp_serde', 'toml'):
        for f in ('json', 'msgpack', 'toml'):
            if f in l or f in crate or f == 'msgpack' and 'rmp' in crate:
                return f, 'pretty' in l
    return None


TEXT = ('std::string::String', 'str', '&str', "std::borrow::Cow<'_, str>", 'std::boxed::Box<str>')
BYTES = ('std::vec::Vec<u8>', '[u8]', '&[u8]', 'std::boxed::Box<[u8]>', "std::borrow::Cow<'_, [u8]>")


def rep_of(P, tyid):
    s = P.tys(tyid).replace("'{erased} ", '')
    while s.startswith('&') and s not in ('&str', '&[u8]'):
        s = s[1:]
    if s in TEXT:
        return 'text'
    if s in BYTES:
        return 'bytes'
    return s


def targs(e):
    return e[4].get('targs', ())


HELPERS = (('json', 'json', False), ('json_pretty', 'json', True), ('msgpack', 'msgpack', False))
OWNREP = {'json': 'text', 'msgpack': 'bytes'}


def ok_of(c):
    return ('field', c, 'Ok', '0')


def result_of(p, c):
    """the path returns the Result c, directly or unwrapped and wrapped again -> 'ok' | 'err' | None"""
    v = p.value
    if ceq(v, c):
        return 'both'
    if v[0] == 'adt' and v[1] == RES:
        if v[2] == 0 and ceq(v[3][0], ok_of(c)):
            return 'ok'
        if v[2] == 1 and contains(nvd(v[3][0]), lambda x: canon(x) == canon(nvd(('field', c, 'Err', '0')))):
            return 'err'
    return None


@rule('C22', 'Every abstract path of the functions visible as json::, json_pretty:: and msgpack::serialize/deserialize (re-exports resolved): the serializer receives the whole output of one conversion of the given value to the module\'s own format, in the representation (text for JSON, a sequence of bytes for MessagePack) in which the decoding side asks for it; the decoder returns the value which the same format\'s parser made of exactly what was received; every failing step is the error returned, and no error is returned without one.',
      ['serdeconv: to_X and from_X of one format are inverse to each other'])
def c22(ctx):
    P = ctx.P
    D = Driver(P)
    for mod, fmt, pretty in HELPERS:
        b = ctx.need(exported(ctx, mod, 'serialize'), mod + '::serialize')
        ps = paths(D.call(State(), b, [('param', 'value'), ('param', 'serializer')]))
        ctx.track(D.I, ps)
        check_helper_ser(ctx, P, mod, fmt, pretty, ps)
        b = ctx.need(exported(ctx, mod, 'deserialize'), mod + '::deserialize')
        ps = paths(D.call(State(), b, [('param', 'deserializer')]))
        ctx.track(D.I, ps)
        check_helper_de(ctx, P, mod, fmt, ps)


def check_helper_ser(ctx, P, mod, fmt, pretty, ps):
    w = mod + '::serialize'
    good = 0
    for p in ps:
        if not ctx.ob(p.kind == 'ret', 'no-panic', w, 'a path ends in %s' % p.kind, '', p):
            continue
        conv = [e for e in p.events if e[0] == 'call' and fmt_of(e[3], 'ser')]
        sends = [e for e in p.events if e[0] == 'call' and e[4].get('trait') in ('serde::Serialize', 'serde::Serializer')
                 and any(ident(a) == ('param', 'serializer') for a in e[2])]
        ctx.ob(len(sends) <= 1, 'written-once', w, 'the serializer is used %d times' % len(sends), sends[-1][5] if sends else '', p)
        if not sends:
            # an error before anything was written
            e = [c for c in conv if variant_fact(p, c[3]) == 1]
            ctx.ob(is_err(p) and e, 'failure-has-cause', w, 'nothing is written although the value was converted', '', p)
            if e:
                ctx.ob(is_err(p) and from_err(p.value, e[0][3]), 'failure-reported', w, 'the conversion fails and the path returns %s' % show(p.value)[:80], e[0][5], p)
            continue
        s = sends[0]
        val, rep = sent(P, s)
        if val is None:
            ctx.note('C22: %s writes by %s' % (w, s[1]))
            continue
        c = [x for x in conv if ceq(strip_views(val), ok_of(x[3]))]
        if not c:
            some = [x for x in conv if contains(nvd(val), lambda y: canon(y) == canon(nvd(x[3])))]
            ctx.ob(False, 'whole-output', w, 'what is written is %s, not the converted value' % show(val)[:80] if some else 'what is written does not come from a conversion: %s' % show(val)[:80], s[5], p)
            continue
        c = c[0]
        good += 1
        f, pr = fmt_of(c[3], 'ser')
        ctx.ob(f == fmt, 'own-format', w, 'the value is written as %s' % f, c[5], p)
        ctx.ob(pr == pretty, 'own-format', w + '/layout', 'the %s form is written' % ('pretty' if pr else 'compact'), c[5], p)
        ctx.ob(ident(c[2][0]) == ('param', 'value'), 'own-value', w, 'what is converted is %s' % show(c[2][0])[:80], c[5], p)
        ctx.ob(rep == OWNREP[fmt], 'representation', w, 'the output is written as %s' % rep, s[5], p)
        r = result_of(p, s[3])
        ctx.ob(r is not None, 'outcome', w, 'the path returns %s, not the outcome of writing' % show(p.value)[:80], s[5], p)
    ctx.ob(good, 'reachable', w, 'no path writes the value')


def from_err(v, c):
    t = canon(nvd(('field', c, 'Err', '0')))
    return contains(nvd(v), lambda x: canon(x) == t)


def strip_views(t):
    t = nv(t)
    while t[0] == 'call' and last(t) in ('as_str', 'as_ref', 'as_slice', 'as_bytes', 'deref', 'clone', 'to_owned', 'to_string', 'into_bytes', 'into', 'borrow', 'into_boxed_str') and t[2]:
        t = nv(t[2][0])
    if t[0] == 'text' and len(t) >= 3:
        return strip_views(t[-1])
    return t


def sent(P, e):
    """what a Serialize/Serializer call hands to the serializer, and how"""
    m = e[4].get('method')
    if e[4].get('trait') == 'serde::Serialize':
        return e[2][0], rep_of(P, targs(e)[0]) if targs(e) else None
    if m == 'serialize_str':
        return e[2][1], 'text'
    if m == 'serialize_bytes':
        return e[2][1], 'raw bytes'
    return None, None


def check_helper_de(ctx, P, mod, fmt, ps):
    w = mod + '::deserialize'
    good = 0
    for p in ps:
        if not ctx.ob(p.kind == 'ret', 'no-panic', w, 'a path ends in %s' % p.kind, '', p):
            continue
        recv = [e for e in p.events if e[0] == 'call' and e[4].get('trait') in ('serde::Deserialize', 'serde::Deserializer')
                and any(ident(a) == ('param', 'deserializer') for a in e[2])]
        conv = [e for e in p.events if e[0] == 'call' and fmt_of(e[3], 'de')]
        failed = [e for e in recv + conv if variant_fact(p, e[3]) == 1]
        if len(recv) == 1 and ceq(p.value, recv[0][3]):
            ctx.ob(False, 'own-format', w, 'the value is read directly, not parsed as ' + fmt, recv[0][5], p)
            continue
        if is_err(p) and failed:
            ctx.ob(from_err(p.value, failed[-1][3]), 'failure-reported', w, 'the path returns %s, not the failure' % show(p.value)[:80], failed[-1][5], p)
            continue
        direct = [e for e in conv if ceq(p.value, e[3])]
        if is_err(p):
            ctx.ob(False, 'failure-has-cause', w, 'the path fails although everything was decoded', '', p)
            continue
        ctx.ob(not failed, 'failure-reported', w, 'the path succeeds although %s failed' % (show(failed[0][3])[:60] if failed else ''), failed[0][5] if failed else '', p)
        if failed:
            continue
        v = p.value
        c = direct or [e for e in conv if v[0] == 'adt' and v[1] == RES and ceq(v[3][0], ok_of(e[3]))]
        if not ctx.ob(c, 'own-value', w, 'the path returns %s, not the parsed value' % show(v)[:80], '', p):
            continue
        c = c[0]
        good += 1
        f, _ = fmt_of(c[3], 'de')
        ctx.ob(f == fmt, 'own-format', w, 'the value is parsed as %s' % f, c[5], p)
        src = strip_views(c[2][0])
        r = [e for e in recv if ceq(src, ok_of(e[3]))]
        if not ctx.ob(r, 'whole-input', w, 'what is parsed is %s, not what was received' % show(src)[:80], c[5], p):
            continue
        if r[0][4].get('trait') == 'serde::Deserialize' and targs(r[0]):
            rep = rep_of(P, targs(r[0])[0])
            s = P.tys(targs(r[0])[0])
            ctx.ob(rep == OWNREP[fmt] and not s.startswith('&'), 'representation', w, 'the input is asked for as %s' % s, r[0][5], p)
        else:
            ctx.note('C22: %s reads by %s' % (w, r[0][1]))
    ctx.ob(good, 'reachable', w, 'no path returns a value')


# ------------------------------------------------------------------ C21
def ser_names(ctx, D, path):
    """derived Serialize of a struct -> list of Ok paths, each {field: key}, with skipped fields"""
    b = D.impl('serde::Serialize', path, 'serialize')
    if b is None:
        return None
    ps = paths(D.call(State(), b, [('&', ('param', 'self')), ('param', 'S')]))
    ctx.track(D.I, ps)
    out = []
    for p in ps:
        if p.kind != 'ret' or is_err(p):
            continue
        m = {}
        for e in p.events:
            if e[0] == 'call' and e[1].endswith('::serialize_field') and len(e[2]) >= 3:
                k = e[2][1]
                v = ident(e[2][2])
                f = v[3] if v[0] == 'field' and ident(v[1]) == ('param', 'self') else None
                m[k[1] if k[0] == 'str' else show(k)] = (f, e)
        out.append((p, m))
    return out


def de_names(ctx, D, path):
    """derived Deserialize of a struct -> ({key: variant of the field enum}, {field: (variants, default)})"""
    P = D.P
    pre = 'for %s>::deserialize::' % path
    vs = [P.bodies[k] for k in P.roots if P.bodies[k].get('name') == 'visit_str' and pre in P.bodies[k]['path']]
    vm = [P.bodies[k] for k in P.roots if P.bodies[k].get('name') == 'visit_map' and pre in P.bodies[k]['path']]
    if len(vs) != 1 or len(vm) != 1:
        return None
    keys = {}
    ps = paths(D.call(State(), vs[0], [('param', 'v'), ('param', 's')]))
    ctx.track(D.I, ps)
    for p in ps:
        if not is_ok(p):
            continue
        v = p.value[3][0]
        for k, t in p.state.facts.items():
            if k[0] == 'b' and t is True and k[1][0] == 'eq':
                for x in k[1][1:]:
                    x = nv(x)
                    if x[0] == 'str' and v[0] == 'adt':
                        keys[x[1]] = v[2]
    ps = paths(D.call(State(), vm[0], [('param', 'v'), ('param', 'map')]))
    ctx.track(D.I, ps)
    fields = {}
    from r_router import carried
    phis = {}
    for p in ps:
        if is_ok(p):
            v = p.value[3][0]
            if v[0] != 'adt' or v[1] != path:
                continue
            for f, x in zip(D.P.adts[path]['variants'][v[2]]['fields'], v[3]):
                x = ident(x)
                if x[0] == 'field' and x[2] == 'Some' and x[1][0] == 'phi':
                    phis.setdefault(f, set()).add(x[1])
                elif x[0] == 'phi':
                    phis.setdefault(f, set()).add(x)
                else:
                    fields.setdefault(f, [set(), set()])[1].add(x)
    for p in ps:
        if p.kind != 'loopback':
            continue
        key = None
        for k, v in p.state.facts.items():
            if k[0] == 'var' and k[1][0] == 'field' and contains(k[1], lambda y: y[0] == 'call' and last(y) == 'next_key') and k[1][2] == 'Some':
                key = v
        for f, s in phis.items():
            for ph in s:
                c = carried(p, ph)
                if c is not None and c[0] == 'adt' and c[1] == OPT and c[2] == 1 and contains(c, lambda y: y[0] == 'call' and last(y) == 'next_value'):
                    fields.setdefault(f, [set(), set()])[0].add(key)
    return keys, fields


def known_none(p, f):
    """the field f of self is known to be None on this path"""
    own = lambda t: ident(t) == ('field', ident(t)[1], ident(t)[2], f) and ident(ident(t)[1]) == ('param', 'self') if ident(t)[0] == 'field' else False
    for k, v in p.state.facts.items():
        t = k[1]
        if not isinstance(t, tuple):
            continue
        if k[0] == 'var' and v == 0 and own(t) or k[0] == 'notvar' and v == frozenset([1]) and own(t):
            return True
        if t[0] == 'discr' and own(t[1]) and (k[0] == 'is' and v == ('int', 0) or k[0] == 'isnot' and ('int', 1) in v):
            return True
    return False


def check_names(ctx, D, path, required, optional):
    """every field is written under a key from which the decoder fills the same field"""
    s = ser_names(ctx, D, path)
    ctx.need(s, 'Serialize for ' + path)
    n = path.split('::')[-1]
    d = de_names(ctx, D, path)
    if d is None:
        ctx.note('C21: decoder of %s not recognised' % n)
    for p, m in s:
        got = {f: k for k, (f, e) in m.items()}
        for k, (f, e) in m.items():
            ctx.ob(f is not None, 'own-field', n + '.' + k, 'the member %s of %s is not one of its fields' % (k, n), e[5], p)
        for f in required:
            ctx.ob(f in got, 'written', n + '.' + f, '%s is not part of what is written' % f, '', p)
        for f in optional:
            if f not in got:
                none = known_none(p, f)
                ctx.ob(none, 'written', n + '.' + f, '%s is left out although it may have a value' % f, '', p)
        if d is not None:
            keys, fields = d
            for f, k in got.items():
                if f is None:
                    continue
                ctx.ob(keys.get(k) is not None and keys.get(k) in fields.get(f, [()])[0], 'decoded-into', n + '.' + f, 'what is written as %s is not read back into %s' % (k, f), '', p)
    if d is not None:
        for f in optional:
            for x in d[1].get(f, [set(), set()])[1]:
                ctx.ob(not (x[0] == 'adt' and x[1] == OPT and x[2] == 1), 'default', n + '.' + f, 'a missing %s is read as %s' % (f, show(x)[:60]))
    return s


def problem_types(D):
    P = D.P
    out = {}
    for n in ('ProblemResponse', 'Problem', 'AboutBlankProblem', 'TrackableProblem'):
        out[n] = D.find_adt(n)
    return out


def variants_of(P, path):
    return [v['name'] for v in P.adts[path]['variants']]


def problem_status(p, t, x, vnames):
    """t is the status of the problem x -> True/False; None if not a status at all"""
    t = ident(t)
    if t[0] == 'field' and t[3] == 'status' and t[1][0] == 'field' and t[1][2] in vnames:
        return ceq(t[1][1], x)
    return None


def fields_of(P, path, v, variant=0):
    """{name: value} of a struct value"""
    names = P.adts[path]['variants'][variant]['fields']
    if v[0] == 'adt':
        return dict(zip(names, v[3]))
    return None


@rule('C21', 'Every abstract path of the public functions of rfc7807 and of the derived (de)serializers it uses: wherever a ProblemResponse is made or its problem replaced, its status becomes Some(status of the variant actually held); nothing else can change either field; the head is written with that field as status and the problem+json content type; the body is the JSON of the problem held, each variant with its own type tag, and each member is written under the key from which the decoder fills the same member; problems made from a status carry code and reason phrase of that status, problems made from an error its text, its source\'s text and the texts of all its events, absent exactly where the error has none.',
      ['serdeconv: JSON round-trips the serde data model', 'serde internally tagged enums: the tag selects the variant of the same name'])
def c21(ctx):
    P = ctx.P
    D = Driver(P)
    T = problem_types(D)
    for n, t in T.items():
        ctx.need(t, n)
    R, PB, AB, TR = T['ProblemResponse'], T['Problem'], T['AboutBlankProblem'], T['TrackableProblem']
    vn = variants_of(P, PB)
    check_response(ctx, D, R, PB, vn)
    check_head(ctx, D, R)
    check_tags(ctx, D, PB, vn)
    check_names(ctx, D, AB, ('title', 'status'), ())
    check_names(ctx, D, TR, ('title', 'status'), ('detail', 'instance', 'history'))
    check_body(ctx, D, R, PB)
    check_makers(ctx, D, PB, AB, TR, vn)


def body_field(P, R, PB):
    for it in P.items:
        if it['path'] == R and 'fields' in it:
            return [f[1] for f in it['fields'] if P.types[f[2]].get('path') == PB], it
    return [], None


def check_response(ctx, D, R, PB, vn):
    P = D.P
    bf, it = body_field(P, R, PB)
    if not bf:
        ctx.note('C21: layout of ProblemResponse not recognised')
        return
    bf = bf[0]
    for f in it['fields']:
        if f[1] in (bf, 'status'):
            ctx.ob(not f[3], 'private', 'ProblemResponse.' + f[1], 'the field %s can be changed from outside' % f[1])
    made = mut = 0
    for k in P.roots:
        b = P.bodies[k]
        if b.get('trait') and b['trait'].split('::')[-1] not in ('From', 'Into', 'Default', 'RpcResponse', 'DerefMut', 'AsMut', 'BorrowMut') or 'closure' in b['path']:
            continue
        if '::_::' in b['path']:
            continue
        rt = P.types[b['locals'][0]]
        args = [P.types[b['locals'][i + 1]] for i in range(b['nargs'])]
        muts = [i for i, t in enumerate(args) if t['k'] == 'ref' and t.get('mut') and P.types[t['args'][0]].get('path') == R]
        name = b['path']
        # functions giving out mutable access to the problem
        inner = P.types[rt['args'][0]] if rt['k'] == 'ref' and rt.get('mut') else None
        if inner is not None and muts and inner.get('path') in (PB, R) and b.get('pub', True):
            ctx.ob(False, 'status-follows-problem', name, 'hands out mutable access to the problem of a response', b['span'])
            continue
        if rt.get('path') == R and not muts:
            outs = D.call(State(), b, [('param', 'a%d' % i) for i in range(b['nargs'])])
            ps = paths(outs)
            ctx.track(D.I, ps)
            for p in ps:
                if p.kind != 'ret':
                    continue
                f = fields_of(P, R, p.value)
                if f is None:
                    continue
                made += 1
                consistent(ctx, D, p, f, bf, vn, name, PB)
        elif muts and b.get('name') != 'set_body':
            st = State()
            a = []
            for i in range(b['nargs']):
                if i in muts:
                    o = ('X', 'resp%d' % i)
                    names = P.adts[R]['variants'][0]['fields']
                    st.objs[o] = ('adt', R, 0, tuple(('old', n) for n in names))
                    a.append(('ref', o, (), True))
                else:
                    a.append(('param', 'a%d' % i))
            outs = D.I.run_body(st, b, a, keep=True) or []
            ps = paths(outs)
            ctx.track(D.I, ps)
            for p in ps:
                if p.kind != 'ret':
                    continue
                for i in muts:
                    v = D.I.snapv(p.state, p.state.objs[('X', 'resp%d' % i)])
                    f = fields_of(P, R, v)
                    if f is None:
                        continue
                    if f[bf] == ('old', bf) and f.get('status') == ('old', 'status'):
                        continue
                    mut += 1
                    consistent(ctx, D, p, f, bf, vn, name, PB)
    ctx.ob(made, 'reachable', 'ProblemResponse/made', 'no function makes a ProblemResponse')
    ctx.ob(mut, 'reachable', 'ProblemResponse/replaced', 'no function replaces the problem of a response')
    b = D.inherent(R, 'problem')
    if b is not None:
        for s, o in D.call(State(), b, [('&', ('param', 'self'))]):
            v = ident(D.I.snapv(s, o[1])) if o[0] == 'ret' else ('?',)
            ctx.ob(v[0] == 'field' and v[3] == bf, 'status-follows-problem', R + '::problem', 'problem() returns %s' % show(v)[:60])


def consistent(ctx, D, p, f, bf, vn, name, PB):
    st = f.get('status')
    if st is None:
        ctx.note('C21: ProblemResponse has no field status')
        return
    body = f[bf]
    st = ident(st)
    if body[0] == 'adt' and body[1] == PB:
        inner = body[3][0] if body[3] else None
        want = None
        if inner is not None and inner[0] == 'adt':
            fs = fields_of(D.P, inner[1], inner)
            want = fs.get('status') if fs else None
        good = st[0] == 'adt' and st[2] == 1 and want is not None and ceq(st[3][0], want)
        if not good and inner is not None and st[0] == 'adt' and st[2] == 1:
            x = ident(st[3][0])
            good = x[0] == 'field' and x[3] == 'status' and ceq(x[1], inner)
    else:
        good = st[0] == 'adt' and st[2] == 1 and problem_status(p, st[3][0], body, vn) is True
    ctx.ob(good, 'status-follows-problem', name, 'the response holds the problem %s with the status %s' % (show(body)[:50], show(st)[:80]), '', p)


def check_head(ctx, D, R):
    P = D.P
    s = ser_names(ctx, D, R)
    ctx.need(s, 'Serialize for ProblemResponse')
    d = de_names(ctx, D, R)
    hdr = None
    for p, m in s:
        for k in ('status', 'header'):
            ctx.ob(k in m, 'head', 'ProblemResponse.' + k, 'the response is written without its %s' % k, '', p)
        if 'status' in m:
            f, e = m['status']
            ctx.ob(f == 'status', 'head', 'ProblemResponse.status/value', 'the status written is not the field status', e[5], p)
        if 'header' in m:
            hdr = m['header']
        if d is not None:
            for k, (f, e) in m.items():
                ctx.ob(d[0].get(k) is not None and d[0].get(k) in d[1].get(f, [()])[0], 'decoded-into', 'ProblemResponse.' + k, 'what is written as %s is not read back into it' % k, e[5], p)
    if hdr is None:
        return
    t = peel_ty(P, targs(hdr[1])[1]) if len(targs(hdr[1])) > 1 else {}
    hp = t.get('path')
    if hp is None or hp not in P.adts or not P.adts[hp].get('local'):
        ctx.note('C21: type of the header not recognised')
        return
    s = ser_names(ctx, D, hp)
    ctx.need(s, 'Serialize for the header of ProblemResponse')
    d = de_names(ctx, D, hp)
    for p, m in s:
        ct = [k for k in m if k.lower() == 'content-type']
        if not ctx.ob(ct, 'content-type', 'header', 'no content type is written (only %s)' % ', '.join(sorted(m)), '', p):
            continue
        f, e = m[ct[0]]
        if d is not None:
            ctx.ob(d[0].get(ct[0]) is not None and (f is None or d[0].get(ct[0]) in d[1].get(f, [()])[0]), 'decoded-into', 'header.content-type', 'the content type written is not read back', e[5], p)
        tt = peel_ty(P, targs(e)[1]) if len(targs(e)) > 1 else {}
        content_type(ctx, D, tt, e, p)


def content_type(ctx, D, t, e, p):
    P = D.P
    path = t.get('path')
    b = D.impl('serde::Serialize', path, 'serialize') if path in P.adts and P.adts[path].get('local') else None
    vals = set()
    if b is not None:
        for q in paths(D.call(State(), b, [('&', ('param', 'self')), ('param', 'S')])):
            for x in q.events:
                if x[0] == 'call' and x[4].get('trait') == 'serde::Serializer':
                    k = x[2][-1] if x[4].get('method') == 'serialize_unit_variant' else x[2][1] if len(x[2]) > 1 else None
                    if k is not None:
                        vals.add((x[4].get('method'), nv(k)))
    else:
        v = nv(e[2][2])
        vals.add(('value', v))
    for m, v in vals:
        if v[0] == 'str':
            ctx.ob(v[1].split(';')[0].strip().lower() == 'application/problem+json', 'content-type', 'value', 'the content type is %s' % v[1], e[5], p)
        else:
            ctx.note('C21: content type %s not recognised' % show(v)[:60])
    # the decoder must insist on the same text, when it is one of unit type
    if b is not None:
        db = D.impl('serde::Deserialize', path, 'deserialize')
        if db is not None:
            for q in paths(D.call(State(), db, [('param', 'D')])):
                for x in q.events:
                    if x[0] == 'call' and x[4].get('method') == 'deserialize_unit_struct':
                        ctx.ob(('serialize_unit_struct', nv(x[2][1])) in vals, 'content-type', 'decoded', 'the decoder expects %s' % show(x[2][1])[:60], x[5], q)


TAGS = {'AboutBlank': 'about:blank', 'Trackable': 'https://docs.rs/htrpc/0.0.2/htrpc/rfc7807/struct.TrackableProblem.html'}


def check_tags(ctx, D, PB, vn):
    P = D.P
    b = ctx.need(D.impl('serde::Serialize', PB, 'serialize'), 'Serialize for Problem')
    ps = paths(D.call(State(), b, [('&', ('param', 'self')), ('param', 'S')]))
    ctx.track(D.I, ps)
    seen = {}
    for p in ps:
        if p.kind != 'ret':
            continue
        var = [v for k, v in p.state.facts.items() if k[0] == 'var' and ident(k[1]) == ('param', 'self')]
        if not var or is_err(p):
            continue
        name = vn[var[0]]
        c = [e for e in p.events if e[0] == 'call' and e[1].endswith('serialize_tagged_newtype')]
        if not c:
            # written by hand: look for the key `type`
            f = [e for e in p.events if e[0] == 'call' and e[1].split('::')[-1] in ('serialize_field', 'serialize_entry') and nv(e[2][1]) == ('str', 'type')]
            if ctx.ob(f, 'type-tag', name, 'no type identifier is written', p.events[-1][5] if p.events and p.events[-1][0] == 'call' else '', p):
                seen[name] = nv(f[0][2][2])
            continue
        e = c[0]
        ctx.ob(nv(e[2][3]) == ('str', 'type'), 'type-tag', name + '/key', 'the type identifier is written as %s' % show(e[2][3])[:40], e[5], p)
        seen[name] = nv(e[2][4])
        v = ident(e[2][5])
        ctx.ob(v[0] == 'field' and v[2] == name and ident(v[1]) == ('param', 'self'), 'type-tag', name + '/content', 'the problem written is %s' % show(v)[:60], e[5], p)
        ctx.ob(ceq(p.value, e[3]), 'type-tag', name + '/outcome', 'the outcome of writing is not returned', e[5], p)
    for n in vn:
        if ctx.ob(n in seen, 'type-tag', n, 'no path writes this kind of problem'):
            if n in TAGS:
                ctx.ob(seen[n] == ('str', TAGS[n]), 'type-tag', n + '/value', 'the type identifier is %s' % show(seen[n])[:80])
    ctx.ob(len(set(seen.values())) == len(seen), 'type-tag', 'distinct', 'two kinds of problems have the same type identifier')
    # decoding: tag -> variant index -> the same variant
    pre = 'for %s>::deserialize::' % PB
    vs = [P.bodies[k] for k in P.roots if P.bodies[k].get('name') == 'visit_str' and pre in P.bodies[k]['path']]
    db = D.impl('serde::Deserialize', PB, 'deserialize')
    if len(vs) != 1 or db is None:
        ctx.note('C21: decoder of Problem not recognised')
        return
    keys = {}
    for p in paths(D.call(State(), vs[0], [('param', 'v'), ('param', 's')])):
        if is_ok(p) and p.value[3][0][0] == 'adt':
            for k, t in p.state.facts.items():
                if k[0] == 'b' and t is True and k[1][0] == 'eq':
                    for x in k[1][1:]:
                        if nv(x)[0] == 'str':
                            keys[nv(x)[1]] = p.value[3][0][2]
    made = {}
    ps = paths(D.call(State(), db, [('param', 'D')]))
    ctx.track(D.I, ps)
    for p in ps:
        if not is_ok(p):
            continue
        v = p.value[3][0]
        tag = [x for k, x in p.state.facts.items() if k[0] == 'var' and k[1][0] == 'field' and k[1][2] in (None, '') and contains(k[1], lambda y: y[0] == 'call' and last(y) == 'deserialize_any')]
        if v[0] == 'adt' and v[1] == PB and tag:
            made.setdefault(tag[-1], set()).add(v[2])
    for n, t in seen.items():
        if t[0] != 'str':
            continue
        k = keys.get(t[1])
        if ctx.ob(k is not None, 'tag-decoded', n, 'the type identifier %s is not recognised by the decoder' % t[1]):
            if k in made:
                ctx.ob(made[k] == {vn.index(n)}, 'tag-decoded', n + '/variant', 'the type identifier %s is decoded as another kind of problem' % t[1])
            else:
                ctx.note('C21: decoded variant of %s not recognised' % n)


def check_body(ctx, D, R, PB):
    P = D.P
    bf, _ = body_field(P, R, PB)
    b = ctx.need(D.impl('procedure::RpcResponse', R, 'body') or next((P.bodies[k] for k in P.roots if P.bodies[k].get('name') == 'body' and P.bodies[k].get('trait', '').endswith('RpcResponse') and P.types[P.bodies[k]['self_ty']].get('path') == R), None), 'RpcResponse::body for ProblemResponse')
    st = State()
    names = P.adts[R]['variants'][0]['fields']
    o = ('X', 'resp')
    init = ('adt', R, 0, tuple(('old', n) for n in names))
    st.objs[o] = init
    ps = paths(D.I.run_body(st, b, [('ref', o, (), True)], keep=True) or [])
    ctx.track(D.I, ps)
    n = 0
    for p in ps:
        if p.kind != 'ret':
            continue
        conv = [e for e in p.events if e[0] == 'call' and fmt_of(e[3], 'ser')]
        v = strip_views(D.I.snapv(p.state, unbox(p.value)))
        c = [e for e in conv if ceq(v, ok_of(e[3]))]
        if not ctx.ob(c, 'json-body', 'body', 'the body is %s, not the problem as JSON' % show(v)[:80], '', p):
            continue
        n += 1
        c = c[0]
        ctx.ob(fmt_of(c[3], 'ser')[0] == 'json', 'json-body', 'format', 'the body is written as %s' % fmt_of(c[3], 'ser')[0], c[5], p)
        x = ident(c[2][0])
        ctx.ob(bf and x == ('old', bf[0]), 'json-body', 'problem', 'what is written is %s, not the problem of the response' % show(x)[:60], c[5], p)
        ctx.ob(p.state.objs[o] == init, 'json-body', 'unchanged', 'writing the body changes the response', c[5], p)
    ctx.ob(n, 'reachable', 'body', 'no path writes the body')
    b = next((P.bodies[k] for k in P.roots if P.bodies[k].get('name') == 'set_body' and P.bodies[k].get('trait', '').endswith('RpcResponse') and P.types[P.bodies[k]['self_ty']].get('path') == R), None)
    ctx.need(b, 'RpcResponse::set_body for ProblemResponse')
    st = State()
    st.objs[o] = init
    ps = paths(D.I.run_body(st, b, [('ref', o, (), True), ('param', 'body')], keep=True) or [])
    ctx.track(D.I, ps)
    n = 0
    for p in ps:
        if p.kind != 'ret':
            continue
        conv = [e for e in p.events if e[0] == 'call' and fmt_of(e[3], 'de')]
        good = [e for e in conv if variant_fact(p, e[3]) == 0]
        f = fields_of(P, R, D.I.snapv(p.state, p.state.objs[o]))
        if f is None or not bf:
            ctx.note('C21: set_body not recognised')
            continue
        if good:
            e = good[-1]
            n += 1
            ctx.ob(fmt_of(e[3], 'de')[0] == 'json', 'json-body', 'set/format', 'the body is parsed as %s' % fmt_of(e[3], 'de')[0], e[5], p)
            ctx.ob(strip_views(e[2][0]) == ('param', 'body'), 'json-body', 'set/input', 'what is parsed is %s, not the body received' % show(e[2][0])[:60], e[5], p)
            ctx.ob(ceq(f[bf[0]], ok_of(e[3])), 'json-body', 'set', 'the problem becomes %s, not the one received' % show(f[bf[0]])[:60], e[5], p)
        elif f[bf[0]] != ('old', bf[0]):
            ctx.ob(False, 'json-body', 'set/other', 'the problem becomes %s' % show(f[bf[0]])[:60], '', p)
        elif not conv:
            ctx.ob(never_a_problem(p), 'json-body', 'set/skipped', 'a body that was received is not even decoded', '', p)
    ctx.ob(n, 'reachable', 'set_body', 'no path takes over the problem received')


def never_a_problem(p):
    """the path is only taken for bodies that cannot be a JSON object: too short ones, or by their first byte"""
    for k, v in p.state.facts.items():
        x = k[1] if len(k) == 2 else None
        if k[0] == 'b' and isinstance(x, tuple) and x[0] in ('eq', 'lt'):
            a, b = ident(x[1]), ident(x[2])
            if x[0] == 'eq' and v:
                for m, n in ((a, b), (b, a)):
                    if m[0] == 'len' and n[0] == 'int' and n[1] < 2:
                        return True
            if x[0] == 'lt' and a[0] == 'len' and b[0] == 'int' and v and b[1] <= 2:
                return True
            if x[0] == 'lt' and b[0] == 'len' and a[0] == 'int' and not v and a[1] < 2:
                return True
            if contains(x, lambda y: y[0] == 'index'):
                return True
        if isinstance(x, tuple) and contains(x, lambda y: y[0] == 'call' and last(y) in ('first', 'starts_with', 'get')):
            return True
    return False


def unbox(v):
    """the value in a (possibly unsized) box"""
    while v[0] in ('adt', 'box') and (v[0] == 'box' or v[1].split('::')[-1] in ('Box', 'Unique', 'NonNull')):
        v = v[1] if v[0] == 'box' else v[3][0]
    return v


def text_of(t):
    """t is the text of X -> X"""
    t = nv(t)
    while t[0] == 'call' and last(t) in ('to_string', 'to_owned', 'into', 'from', 'clone', 'into_string') and t[2]:
        t = nv(t[2][0])
    if t[0] == 'text':
        return nv(t[-1])
    if t[0] == 'fmt' or t[0] == 'format':
        return None
    return t


def check_makers(ctx, D, PB, AB, TR, vn):
    P = D.P
    ST, ER = ('param', 'status'), ('param', 'error')

    def about(v, name, p, site=''):
        f = fields_of(P, AB, v)
        if f is None:
            ctx.note('C21: result of %s not recognised' % name)
            return
        ctx.ob(is_call(ident(f['status']), 'Status::code') and ident(ident(f['status'])[2][0]) == ST, 'made-from-status', name + '/status', 'the status is %s' % show(f['status'])[:60], site, p)
        t = text_of(f['title'])
        ctx.ob(t is not None and is_call(t, 'Status::reason_phrase') and ident(t[2][0]) == ST, 'made-from-status', name + '/title', 'the title is %s' % show(f['title'])[:60], site, p)

    def track(v, name, p, site=''):
        f = fields_of(P, TR, v)
        if f is None:
            ctx.note('C21: result of %s not recognised' % name)
            return
        ctx.ob(is_call(ident(f['status']), 'Status::code') and ident(ident(f['status'])[2][0]) == ST, 'made-from-error', name + '/status', 'the status is %s' % show(f['status'])[:60], site, p)
        t = text_of(f['title'])
        ctx.ob(t == ER, 'made-from-error', name + '/title', 'the title is %s, not the text of the error' % show(f['title'])[:60], site, p)
        optional(f['detail'], name + '/detail', p, 'source', detail)
        optional(f['history'], name + '/history', p, 'history', history)
        if f['instance'][0] == 'adt' and f['instance'][2] == 1:
            ctx.note('C21: an instance is set')

    def src_call(p, m):
        return [e[3] for e in p.events if e[0] == 'call' and last(e[3]) in ((m, 'cause') if m == 'source' else (m,)) and ident(e[2][0]) == ER] + \
            [k[1] for k in p.state.facts if k[0] in ('var', 'notvar') and isinstance(k[1], tuple) and k[1][0] == 'call' and last(k[1]) in ((m, 'cause') if m == 'source' else (m,)) and ident(k[1][2][0]) == ER]

    def optional(v, name, p, m, inner):
        v = ident(v)
        cs = src_call(p, m)
        var = [x for x in (variant_fact(p, c) for c in cs) if x is not None]
        if v[0] == 'adt' and v[1] == OPT:
            if v[2] == 0:
                ctx.ob(var and var[-1] == 0, 'made-from-error', name, 'absent although the error may have one', '', p)
            else:
                ctx.ob(var and var[-1] == 1, 'made-from-error', name + '/present', 'present although the error has none', '', p)
                inner(v[3][0], name, p, cs)
        else:
            ctx.note('C21: %s not recognised: %s' % (name, show(v)[:80]))

    def detail(v, name, p, cs):
        t = text_of(v)
        ctx.ob(t is not None and t[0] == 'field' and t[2] == 'Some' and any(ceq(t[1], c) for c in cs), 'made-from-error', name + '/text', 'the detail is %s, not the text of the source' % show(v)[:80], '', p)

    def history(v, name, p, cs):
        v = ident(v)
        own = [x for x in prov(D.I, v) if x[0] == 'call' and last(x) == 'events' and any(contains(nvd(x), lambda y: canon(y) == canon(nvd(c))) for c in cs)]
        if not ctx.ob(own, 'made-from-error', name + '/events', 'the history is %s, not that of the error' % show(v)[:80], '', p):
            return
        cut = [x for x in prov(D.I, v) if x[0] == 'adt' and x[1] in ('iter:take', 'iter:skip', 'iter:filter', 'iter:rev', 'iter:step_by', 'iter:take_while', 'iter:skip_while', 'iter:filter_map') or x[0] == 'call' and last(x) in ('take', 'skip', 'filter', 'rev', 'step_by', 'take_while', 'skip_while', 'first', 'last', 'truncate', 'pop', 'dedup', 'get', 'split_first', 'split_last', 'drain') or x[0] == 'call' and last(x) == 'index' and x[2][1][0] == 'adt']
        ctx.ob(not cut, 'made-from-error', name + '/whole', 'only a part of the history is taken (%s)' % (show(cut[0])[:60] if cut else ''), '', p)
        for x in prov(D.I, v):
            if x[0] == 'closure':
                for s, o in D.I.call_value(p.state.copy(), x, [('param', 'event')], '', None):
                    if o[0] == 'ret':
                        t = text_of(o[1])
                        ctx.ob(t == ('param', 'event'), 'made-from-error', name + '/text', 'an event becomes %s' % show(o[1])[:60], '', p)

    cases = [(AB, 'new', [ST], None, about), (TR, 'new', [ST, ER], None, track),
             (PB, 'about_blank', [ST], 'AboutBlank', about), (PB, 'trackable', [ST, ER], 'Trackable', track)]
    for ty, m, args, var, f in cases:
        b = ctx.need(D.inherent(ty, m), '%s::%s' % (ty.split('::')[-1], m))
        ps = paths(D.call(State(), b, args))
        ctx.track(D.I, ps)
        name = '%s::%s' % (ty.split('::')[-1], m)
        for p in ps:
            if p.kind != 'ret':
                continue
            v = p.value
            if var is not None:
                if v[0] != 'adt' or v[1] != PB:
                    ctx.note('C21: result of %s not recognised' % name)
                    continue
                if not ctx.ob(vn[v[2]] == var, 'made', name, 'makes a problem of kind %s' % vn[v[2]], '', p):
                    continue
                v = v[3][0]
            f(v, name, p)
    for ty, var in ((AB, 'AboutBlank'), (TR, 'Trackable')):
        bs = [P.bodies[k] for k in P.roots if P.bodies[k].get('trait') == 'std::convert::From' and P.bodies[k].get('name') == 'from' and P.types[P.bodies[k]['self_ty']].get('path') == PB and P.types[P.bodies[k]['locals'][1]].get('path') == ty]
        ctx.need(bs, 'From<%s> for Problem' % ty.split('::')[-1])
        for s, o in D.call(State(), bs[0], [('param', 'p')]):
            if o[0] == 'ret':
                v = o[1]
                ctx.ob(v[0] == 'adt' and v[1] == PB and vn[v[2]] == var and v[3][0] == ('param', 'p'), 'made', 'From<%s>' % ty.split('::')[-1], 'makes %s' % show(v)[:60], bs[0]['span'])
