"""C01-C04: what the path, query and header codecs put on the wire and take from it."""
from common import *
from rules import rule

SCALARS = ('bool', 'i8', 'i16', 'i32', 'i64', 'u8', 'u16', 'u32', 'u64', 'f32', 'f64', 'str')
READS = SCALARS + ('string',)
KIND = {'path': ('UrlPathSerializer', 'UrlPathDeserializer'), 'query': ('UrlQuerySerializer', 'UrlQueryDeserializer'),
        'header': ('HttpHeaderSerializer', 'HttpHeaderDeserializer')}
V = ('param', 'v')


class Codec:
    """a (de)serializer of the crate, driven through its public constructor and serde protocol"""

    def __init__(self, ctx, kind, write, visitor_fails=False):
        self.ctx, self.kind, self.write = ctx, kind, write
        self.D = Driver(ctx.P, visitor_fails=visitor_fails)
        self.I = self.D.I
        name = KIND[kind][0 if write else 1]
        self.path = ctx.need(self.D.find_adt(name), 'type ' + name)
        self.new = ctx.need(self.D.inherent(self.path, 'new'), name + '::new')
        self.name = name

    def args(self):
        return [('param', 'entry_point'), ('param', 'url')] if self.kind == 'path' else [('param', 'source')]

    def run(self, shape):
        out = []
        for s, o in self.D.call(State(), self.new, self.args()):
            if o[0] != 'ret':
                out.append((s, o))
                continue
            if self.ctx.P.types[self.new['locals'][0]].get('path') == RES:
                rs = split_result(self.I, s, o[1])
            else:
                rs = [(s, ('ok', o[1]))]
            for s2, r in rs:
                if r[0] != 'ok':
                    out.append((s2, ('ret', err(r[1]))))
                    continue
                ref = self.D.mkref(s2, r[1])
                out += (self.D.ser if self.write else self.D.de)(s2, shape, ref, self.path)
        ps = [p for p in paths(out)]
        self.ctx.track(self.I, ps)
        return ps

    def site(self, m):
        b = self.D.impl(SER if self.write else DE, self.path, m)
        return b['span'] if b and 'span' in b else (b['path'] if b else '')


# ------------------------------------------------------------------ wire events
def pushes(p):
    """path segments put on the URL: (value, event)"""
    out = []
    for e in calls(p, 'push'):
        if 'PathSegmentsMut' in e[1]:
            out.append((nv(e[2][1]), e))
    return out


def other_path_effects(p):
    return [e for e in p.events if e[0] == 'call' and 'PathSegmentsMut' in e[1] and not e[1].endswith('::push')]


def pairs_out(p):
    """(key, value, event) appended to the query"""
    out = []
    for e in p.events:
        if e[0] == 'call' and e[1].endswith('::append_pair'):
            out.append((nv(e[2][1]), nv(e[2][2]), e))
        elif e[0] == 'call' and e[1].endswith('::extend_pairs'):
            out += [(nv(x[3][0]), nv(x[3][1]), e) for x in listed_pairs(e) or ()]
    return out


def listed_pairs(e):
    """the pairs handed to extend_pairs, if they are spelled out"""
    t = nv(e[2][1])
    if t[0] == 'adt' and t[1] in ('[]', 'std::option::Option'):
        xs = [nv(x) for x in t[3]]
        if all(x[0] == 'adt' and x[1] == '()' and len(x[3]) == 2 for x in xs):
            return xs
    return None


def headers_out(p):
    return [(nv(e[2][1]), nv(e[2][2]), e) for e in p.events if e[0] == 'call' and e[1].endswith('::add_raw_header')]


def sinks(kind, p):
    if kind == 'path':
        return [(None, v, e) for v, e in pushes(p) if not is_const_elem(v)]
    return pairs_out(p) if kind == 'query' else headers_out(p)


def foreign_effects(kind, p):
    """other mutations of the output object"""
    k = {'path': 'PathSegmentsMut', 'query': 'form_urlencoded::Serializer', 'header': 'HeadersMut'}[kind]
    okm = {'path': ('push',), 'query': ('append_pair',), 'header': ('add_raw_header',)}[kind]
    return [e for e in p.events if e[0] == 'call' and k in e[1] and not e[1].endswith(tuple('::' + m for m in okm)) and
            not (e[1].endswith('::extend_pairs') and listed_pairs(e) is not None) and any(a[0] == '&' for a in e[2][:1])]


def is_segs(t):
    """the segments of the entry point"""
    t = nv(t)
    return t[0] == 'field' and t[3] == 'segments' or is_call(t, 'segments')


def elem_pos(t):
    """t = an element of the entry point -> its position term, or ('iter', source) or None"""
    t = nv(t)
    if t[0] == 'index' and is_segs(t[1]):
        return t[2]
    if t[0] == 'field' and t[2] == 'Some' and nv(t[1])[0] == 'call' and is_call(nv(t[1]), 'get') and is_segs(nv(t[1])[2][0]):
        return nv(t[1])[2][1]
    if t[0] == 'field' and t[2] == 'Some' and nv(t[1])[0] == 'next':
        src = nv(t[1])[1]
        s = iter_source(src)
        if s is not None:
            return ('iter', s, nv(t[1]))
    return None


def iter_source(src):
    """iterator over (a tail of) the entry point's segments -> start position"""
    src = nv(root(src))
    if src[0] == 'iterof':
        return slice_start(src[1])
    return None


def slice_start(t):
    t = nv(t)
    if is_segs(t):
        return ('int', 0)
    if is_call(t, 'index') and is_segs(t[2][0]):
        r = nv(t[2][1])
        if r[0] == 'adt' and r[1].endswith('RangeFrom'):
            return r[3][0]
    if t[0] == 'index' and is_segs(t[1]):
        return None
    if is_call(t, 'get') or (t[0] == 'field' and t[2] == 'Some'):
        u = nv(t[1]) if t[0] == 'field' else t
        if is_call(u, 'get') and is_segs(u[2][0]):
            r = nv(u[2][1])
            if r[0] == 'adt' and r[1].endswith('RangeFrom'):
                return r[3][0]
    return None


def is_const_elem(t):
    t = nv(t)
    return t[0] == 'field' and t[2] == 'Val' and elem_pos(t[1]) is not None


# ------------------------------------------------------------------ C01
def text_of(v, ty, arg, p, I):
    """is v the plain text of arg : ty on path p?"""
    v = nv(v)
    if ty in ('str', 'string', 'char'):
        return v == arg or (ty == 'char' and v == ('text', 'char', arg))
    if v[0] == 'text':
        r = strip_casts(v[2], ty)
        return bool(r) and r[0] == arg and r[1] == v[1]
    if ty == 'bool' and v[0] == 'str':
        b = I.known_bool(p.state, arg)
        return b is not None and v[1] == ('true' if b else 'false')
    return False


def write_shape(kind, items):
    if kind == 'path':
        return ('tuple', ('param', 'n'), tuple(items))
    return ('struct', tuple(('k%d' % i, s) for i, s in enumerate(items)))


def write_scalar(ctx, C, ty, wrap=None):
    sh = ('w', ty, V)
    inst = '%s/%s' % (C.name, ty)
    if wrap:
        sh = wrap(sh)
        inst += '/' + sh[0]
    site = C.site('serialize_' + ty)
    oks = [p for p in C.run(write_shape(C.kind, [sh])) if is_ok(p)]
    ctx.ob(oks, 'scalar-writable', inst, 'a %s can not be written' % ty, site)
    for p in oks:
        out = sinks(C.kind, p)
        ctx.ob(len(out) == 1, 'scalar-written-once', inst, '%s: writing one %s puts %d values on the wire' % (C.name, ty, len(out)), site, p)
        for _, v, e in out:
            ctx.ob(text_of(v, ty, V, p, C.I), 'scalar-text', inst,
                   '%s writes %s instead of the text of its %s argument' % (C.name, show(v)[:160], ty), e[5], p)


def key_or_value(kind, i, raw):
    """source of pair i"""
    return None


def read_shape(kind, items):
    if kind == 'path':
        return ('tuple', ('param', 'n'), tuple(items))
    return ('map', tuple((('r', 'identifier'), s) for s in items))


DECODERS = ('decode_utf8',)


def raw_segment(t):
    """a raw path segment of the URL (an element of its path_segments iterator, or the result of the recursion)"""
    t = nv(t)
    if t[0] == 'rec':
        return True
    if t[0] == 'field' and t[2] in ('Some', 'Ok'):
        u = nv(t[1])
        if u[0] == 'next':
            r = nv(root(u[1]))
            if is_call(r, 'bytes', 'chars', 'char_indices') or r[0] == 'iterof' or is_segs(r):
                return False
            return any(is_call(x, 'path_segments') for x in subterms(u[1])) or stem(u[1])[0] == 'field' or contains(u[1], lambda x: x[0] == 'param')
        if u[0] == 'rec':
            return True
    return False


def byte_at(t):
    """t is one byte of a raw segment, read by position -> (segment, position)"""
    t = nv(t)
    if t[0] == 'index' and len(t) == 3 and raw_segment(t[1]):
        return nv(t[1]), t[2]
    if t[0] == 'field' and t[2] == 'Some' and is_call(nv(t[1]), 'get') and raw_segment(nv(t[1])[2][0]):
        return nv(nv(t[1])[2][0]), nv(t[1])[2][1]
    return None


def decoded_of(I, t):
    """t is the percent-decoded form of X -> X"""
    u = nv(t)
    if u[0] == 'field' and u[2] == 'Ok' and is_call(nv(u[1]), 'decode_utf8'):
        x = nv(nv(u[1])[2][0])
        if is_call(x, 'percent_decode', 'percent_decode_str'):
            return nv(x[2][0])
        return None
    if u[0] == 'call' and u[1].split('::')[-1] in BAD:
        return None
    if u[0] in ('phi', 'call') and t != u:
        src = set()
        for x in prov(I, u):
            if x[0] == 'next':
                r = nv(root(x[1]))
                if is_call(r, 'bytes', 'chars', 'char_indices'):
                    src.add(nv(r[2][0]))
                elif r[0] == 'iterof':
                    src.add(nv(r[1]))
            elif byte_at(x):
                src.add(byte_at(x)[0])
        if len(src) == 1:
            (x,) = src
            return x if raw_segment(x) else None
    return None


def value_source(C, t):
    """which wire item the reader took t from: ('key'|'value'|'segment', term) or None"""
    t0 = nv(t)
    if C.kind == 'path':
        x = decoded_of(C.I, t)
        return ('segment', x) if x is not None else None
    if t0[0] == 'field' and t0[3] in ('0', '1') and t0[2] is None:
        u = nv(t0[1])
        if u[0] == 'field' and u[2] == 'Some' and nv(u[1])[0] == 'next':
            return ('key' if t0[3] == '0' else 'value', nv(u[1]))
    if C.kind == 'header' and is_call(t0, 'to_lowercase', 'to_ascii_lowercase'):
        s = value_source(C, t0[2][0])
        if s and s[0] == 'key':
            return ('lowkey', s[1])
    return None


def read_scalar(ctx, C, ty, wrap=None):
    sh = ('r', ty)
    inst = '%s/%s' % (C.name, ty)
    if wrap:
        sh = wrap(sh)
        inst += '/' + sh[0]
    site = C.site('deserialize_' + ty)
    ps = C.run(read_shape(C.kind, [sh]))
    leaf = ('r', ty)
    okn = 0
    for p in ps:
        vs = [e for e in p.events if e[0] == 'visit' and e[3] == leaf]
        if p.kind == 'ret' and is_ok(p) and (marks(p, 'pair-done')):
            okn += 1
            ctx.ob(len(vs) == 1, 'scalar-visited-once', inst, '%s hands %d values to a %s' % (C.name, len(vs), ty), site, p)
        for e in vs:
            want = visited_ok(C, p, ty, e)
            ctx.ob(want is None, 'scalar-parsed', inst, '%s: %s' % (C.name, want), e[4], p)
        # a failed parse is an error
        if p.kind == 'ret' and not is_err(p):
            for k, v in p.state.facts.items():
                if k[0] == 'var' and v == 1 and is_call(k[1], 'parse', 'from_str', 'from_str_radix'):
                    ctx.ob(False, 'parse-failure-is-error', inst, '%s: unparsable text does not fail' % C.name, site, p)
    ctx.ob(okn, 'scalar-readable', inst, 'a %s can not be read' % ty, site)


def visited_ok(C, p, ty, e):
    m, arg = e[1], e[2][0]
    y = m[len('visit_'):]
    a = nv(arg)
    if ty in ('str', 'string'):
        if y not in ('str', 'string', 'borrowed_str'):
            return 'a string is delivered through %s' % m
        s = value_source(C, arg)
        if not s or s[0] not in ('value', 'segment'):
            return 'the string delivered is %s, not the received text' % show(a)[:120]
        return None
    cast_from = None
    while a[0] == 'cast':
        if not lossless(a[1], a[2]):
            return 'the value is narrowed from %s to %s' % (a[1], a[2])
        cast_from = a[1]
        a = nv(a[3])
    if ty == 'bool' and a[0] == 'int':
        if y != 'bool':
            return 'a bool is delivered through %s' % m
        for k, v in p.state.facts.items():
            if k[0] == 'is' and v[0] in ('str', 'bytes') and value_source(C, k[1]):
                txt = v[1] if v[0] == 'str' else bytes(v[1]).decode('latin1')
                if txt == ('true' if a[1] else 'false'):
                    return None
        return 'a constant %s is delivered for any text' % bool(a[1])
    if a[0] == 'eq' and ty == 'bool':
        for x, z in ((a[1], a[2]), (a[2], a[1])):
            if z in (('str', 'true'),) and value_source(C, x):
                return 'text other than "false" is taken for false'
    if a[0] != 'field' or a[2] != 'Ok' or not is_call(nv(a[1]), 'parse', 'from_str'):
        return 'the value delivered is %s, not the parsed text' % show(a)[:120]
    call = nv(a[1])
    pt = [t for t in (call[3] or ()) if not t.startswith("'")]
    ptype = pt[-1] if pt else None
    if cast_from and cast_from != ptype:
        return 'cast of something else'
    if y not in ('bool',) + tuple(INT_BITS) + ('f32', 'f64'):
        return 'a %s is delivered through %s' % (ty, m)
    if ptype is None or not lossless(ty, ptype):
        return 'a %s is parsed as %s' % (ty, ptype)
    if not lossless(ptype, y):
        return 'a parsed %s is delivered through %s' % (ptype, m)
    s = value_source(C, call[2][0])
    if not s or s[0] not in ('value', 'segment'):
        return 'the text parsed is %s, not the received one' % show(nv(call[2][0]))[:120]
    return None


def write_names(ctx, C):
    nm = ('param', 'nm')
    for sh in (('unit_variant', nm), ('unit_struct', nm)):
        inst = '%s/%s' % (C.name, sh[0])
        site = C.site('serialize_' + sh[0])
        oks = [p for p in C.run(write_shape(C.kind, [sh])) if is_ok(p)]
        if sh[0] == 'unit_variant' or C.kind == 'header':
            ctx.ob(oks, 'scalar-writable', inst, 'a %s can not be written' % sh[0], site)
        for p in oks:
            for _, v, e in sinks(C.kind, p):
                ctx.ob(nv(v) == nm, 'scalar-text', inst, '%s writes %s instead of the name' % (C.name, show(v)[:160]), e[5], p)


def read_units(ctx, C):
    """a unit is delivered only for the one text that stands for it"""
    nm = ('param', 'nm')
    for sh in (('unit',), ('unit_struct', nm)):
        inst = '%s/%s' % (C.name, sh[0])
        for p in C.run(read_shape(C.kind, [sh])):
            if p.kind != 'ret' or not is_ok(p):
                continue
            for e in p.events:
                if e[0] != 'visit' or e[1] != 'visit_unit':
                    continue
                known = False
                for k, v in p.state.facts.items():
                    t = k[1]
                    if k[0] == 'is' and v[0] in ('str', 'bytes', 'int') and from_text(C, t):
                        known = True
                    if k[0] == 'b' and v is True and isinstance(t, tuple) and t[0] == 'eq' and any(from_text(C, x) and (y == nm or y[0] in ('int', 'str', 'bytes')) for x, y in ((t[1], nv(t[2])), (t[2], nv(t[1])))):
                        known = True
                    if k[0] == 'b' and v is True and isinstance(t, tuple) and is_call(t, 'is_empty') and from_text(C, t[2][0]):
                        known = True
                ctx.ob(known, 'text-of-other-type-refused', inst, '%s takes a text that is not the one of the unit for it' % C.name, e[4], p)


def from_text(C, t):
    """t is the received value text, or its length"""
    t = nv(t)
    for _ in range(6):
        s = value_source(C, t)
        if s:
            return s[0] == 'value'
        if t[0] == 'len' and len(t) == 2:
            t = nv(t[1])
        elif t[0] == 'field' and t[2] == 'Ok':
            t = nv(t[1])
        elif t[0] == 'call' and t[2] and t[1].split('::')[-1] in ('len', 'from_utf8', 'as_bytes', 'as_ref', 'deref', 'to_string', 'to_owned', 'into_owned'):
            t = nv(t[2][0])
        elif t[0] == 'adt' and len(t[3]) == 1:
            t = nv(t[3][0])
        else:
            return False
    return False


@rule('C01', 'Provenance of every scalar from the serde call to the wire and from the wire to the visitor: each value written must be the text of the argument through lossless casts only, each value delivered must be the Ok part of a parse, at a type that contains the requested one, of the received text.',
      ['Display and FromStr of the primitive types are inverse (std)'])
def c01(ctx):
    for kind in ('path', 'query', 'header'):
        W = Codec(ctx, kind, True)
        for ty in SCALARS:
            write_scalar(ctx, W, ty)
        write_scalar(ctx, W, 'u16', lambda s: ('newtype', s))
        if kind != 'path':
            for ty in ('u64', 'bool', 'str'):
                write_scalar(ctx, W, ty, lambda s: ('some', s))
        write_scalar(ctx, W, 'char')
        write_names(ctx, W)
        R = Codec(ctx, kind, False)
        if kind != 'path':
            read_units(ctx, R)
        for ty in READS:
            read_scalar(ctx, R, ty)
        read_scalar(ctx, R, 'u16', lambda s: ('newtype', s))
        if kind != 'path':
            for ty in ('u64', 'bool', 'string'):
                read_scalar(ctx, R, ty, lambda s: ('option', s))
    ctx.at_least(80, len(set(ctx.obs)), 'scalar obligations')


# ------------------------------------------------------------------ position arithmetic
def lin(t):
    k = 0
    while t[0] == 'bin' and t[1] in ('Add', 'Sub') and t[3][0] == 'int':
        k += t[3][1] if t[1] == 'Add' else -t[3][1]
        t = nv(t[2])
    if t[0] == 'int':
        return (('int', 0), k + t[1])
    return (t, k)


def loop_entry(I, phi):
    """a loop-carried position that advances by exactly one per iteration -> its value at loop entry; None otherwise"""
    inc = I.phi_in.get((phi[1], phi[2]), set())
    ins = set()
    for x in inc:
        if contains(x, lambda y: y == phi):
            if lin(x) != (phi, 1) and x != phi:
                return None
        else:
            ins.add(lin(x))
    base = {x for x in ins if (x[0], x[1] - 1) not in ins}
    if len(base) != 1:
        return None
    return base.pop()


def entry_of(I, t):
    """positions before t in the same loop have been dealt with: the first position of that stretch"""
    b, k = lin(t)
    if b[0] == 'phi':
        e = loop_entry(I, b)
        if e is None:
            return None
        return (e[0], e[1] + k)
    return (b, k)


# ------------------------------------------------------------------ C02 writer
def char_set(I, ps, closure):
    """characters for which a closure over one character is surely true"""
    b = I.p.bodies.get(closure[1])
    if b is None:
        return set()
    J = Interp(I.p)
    ch = ('param', 'ch')
    args = [('param', 'clos')] + [ch] * (b['nargs'] - 1)
    out = set(range(256))
    for p in J.run(b, args):
        if p.kind != 'ret':
            continue
        v = J.known_bool(p.state, p.value)
        if v is True:
            continue
        can = domain(p, ch)
        if v is None:
            # the returned term decides, where it can be evaluated
            keep = []
            for x in can:
                try:
                    if not byte_value(p.value, {ch: x}):
                        keep.append(x)
                except Unknown:
                    keep.append(x)
                except Never:
                    pass
            can = keep
        out -= set(can)
    return out if len(out) < 256 else set()


def const_chars(t):
    """the characters of a constant array or byte string (None: not one)"""
    t = nv(t)
    if is_call(t, 'index') and nv(t[2][1])[0] == 'adt' and nv(t[2][1])[1].endswith('RangeFull'):
        return const_chars(t[2][0])
    if t[0] == 'bytes':
        return set(t[1])
    if t[0] == 'adt' and t[1] in ('[]', '()') and t[3] and all(nv(x)[0] == 'int' for x in t[3]):
        return {nv(x)[1] for x in t[3]}
    return None


def chars_of(I, ps, t):
    """the set of characters a `contains` pattern matches"""
    t = nv(t)
    if t[0] == 'closure':
        return char_set(I, ps, t)
    if t[0] == 'int':
        return {t[1]}
    if t[0] == 'str' and len(t[1]) == 1:
        return {ord(t[1])}
    return const_chars(t) or set()


def excluded_chars(I, ps, p, T):
    """characters that T certainly does not contain on path p"""
    out = set()
    T = canon(nv(T))
    for k, v in p.state.facts.items():
        if k[0] == 'b' and v is False and is_call(k[1], 'contains') and canon(nv(k[1][2][0])) == T:
            out |= chars_of(I, ps, k[1][2][1])
        if k[0] == 'var' and v == 0 and is_call(k[1], 'find') and canon(nv(k[1][2][0])) == T:
            out |= chars_of(I, ps, k[1][2][1])
    # loops over the characters/bytes of T that ran to the end
    for e in p.events:
        if e[0] != 'loop':
            continue
        its = None
        done = any(k[0] == 'var' and v == 0 and k[1][0] == 'next' and over(k[1], T) for k, v in p.state.facts.items())
        if not done:
            continue
        for q in ps:
            if q.kind == 'loopback' and q.value == e[1]:
                s = set()
                seen = False
                for k, v in list(q.state.facts.items()):
                    if k[0] == 'var' and k[1][0] == 'next' and over(k[1], T) and v == 1:
                        seen = True
                        s |= set(range(256)) - set(domain(q, ('field', k[1], 'Some', '0')))
                if seen:
                    its = s if its is None else its & s
        out |= its or set()
    out |= const_loops(ps, p, T)
    return out


def const_loops(ps, p, T):
    """characters of a constant list, each of which a loop that ran to the end looked for in T"""
    out = set()
    nth = {}
    for e in p.events:
        if e[0] != 'loop':
            continue
        nth[e[1]] = nth.get(e[1], 0) + 1
        for k, v in p.state.facts.items():
            if not (k[0] == 'var' and v == 0 and k[1][0] == 'next'):
                continue
            cs = next((c for c in (const_chars(x) for x in subterms(k[1][1]) if isinstance(x, tuple)) if c), None)
            if not cs:
                continue
            bodies = [q for q in ps if q.kind == 'loopback' and q.value == e[1] and sum(1 for x in q.events if x[0] == 'loop' and x[1] == e[1]) == nth[e[1]]]
            good = bool(bodies)
            for q in bodies:
                good = good and any(f[0] == 'b' and b is False and is_call(f[1], 'contains') and canon(nv(f[1][2][0])) == T and contains(f[1][2][1], lambda y: y[0] == 'field' and y[1][0] == 'next' and any(const_chars(x) == cs for x in subterms(y[1][1]) if isinstance(x, tuple)))
                                    for f, b in q.state.facts.items())
            if good:
                out |= cs
    return out


def over(nx, T):
    return any(canon(nv(x)) == T for x in subterms(nx[1])) or canon(nv(root(nx[1]))) == T


def safe_literal(v):
    v = nv(v)
    return (v[0] == 'text' and v[1] != 'char') or v[0] == 'str' and v[1] not in ('', '.', '..') and not set(v[1]) & set('\t\n\r')


def unrepresentable(ctx, C, ps, p, v, e, pos, inst):
    """a pushed segment must be one that PathSegmentsMut::push keeps unchanged"""
    v = nv(v)
    if safe_literal(v):
        return
    known = p.state.facts.get(('is', canon(v)))
    empty = known == ('str', '')
    if known is not None and not empty and safe_literal(known):
        return
    nots = {x[1] for x in p.state.facts.get(('isnot', canon(v)), ())}
    for s in ('.', '..'):
        ctx.ob(empty or s in nots, 'segment-representable', '%s/%s' % (inst, s), 'a segment %r, which the URL path drops, is not refused' % s, e[5], p)
    ex = excluded_chars(C.I, ps, p, v)
    ctx.ob(empty or {9, 10, 13} <= ex, 'segment-representable', inst + '/control', 'a segment with a tab or line break, which the URL path strips, is not refused', e[5], p)
    ln = canon(('len', v))
    nonempty = ('int', 0) in p.state.facts.get(('isnot', ln), ()) or C.I.known_bool(p.state, mk_eq(('len', v), ('int', 0))) is False
    okp = nonempty or '' in nots
    if not okp and pos is not None and pos[0] == 'iter':
        # a counter that runs in step with the iterator
        for k, ns in p.state.facts.items():
            if k[0] == 'isnot' and ('int', 0) in ns and k[1][0] == 'phi' and loop_entry(C.I, k[1]) == lin(pos[1]):
                okp = True
    elif not okp and pos is not None:
        z = C.I.known_eq(p.state, pos, ('int', 0))
        b, k = lin(pos)
        okp = z is False or (b == ('int', 0) and k > 0)
    if not okp:
        for k, b in p.state.facts.items():
            if k[0] == 'b' and k[1][0] == 'lt' and k[1][2][0] == 'len' and is_segs(k[1][2][1]) and k[1][1] == ('int', 1) and b is False:
                okp = True
            if k[0] == 'is' and k[1][0] == 'len' and is_segs(k[1][1]) and v == ('int', 1):
                okp = True
    ctx.ob(okp, 'segment-representable', inst + '/empty', 'a leading empty segment followed by others, which the URL path loses, is not refused', e[5], p)


def var_positions(p):
    """entry point elements whose kind is known on p, in the order they were examined: (position, element, kind)"""
    out = []
    for k, v in p.state.facts.items():
        if k[0] == 'var':
            pos = elem_pos(k[1])
            if pos is not None:
                out.append((pos, k[1], v))
    return out


def exhausted(I, p):
    """positions at which the entry point is known to have no further element"""
    out = []
    for k, v in p.state.facts.items():
        if k[0] == 'b' and k[1][0] == 'lt' and k[1][2][0] == 'len' and is_segs(k[1][2][1]) and v is False:
            out.append(k[1][1])
        if k[0] == 'b' and k[1][0] == 'eq' and v is True:
            for x, y in ((k[1][1], k[1][2]), (k[1][2], k[1][1])):
                if x[0] == 'len' and is_segs(x[1]):
                    out.append(y)
        if k[0] == 'var' and v == 0 and k[1][0] == 'next':
            s = iter_source(k[1][1])
            if s is not None:
                out.append(('iter', s, k[1]))
        if k[0] == 'var' and v == 0 and is_call(k[1], 'get') and is_segs(k[1][2][0]):
            out.append(k[1][2][1])
    return out


def pos_start(I, pos):
    """first position of the stretch that ends at pos (loops deal with the constants in between)"""
    if pos[0] == 'iter':
        return lin(pos[1])
    return entry_of(I, pos)


def path_writer(ctx, C):
    VAR = C.ctx.P.variant_index('procedure::PathSegment', 'Var') if 'procedure::PathSegment' in C.ctx.P.adts else 1
    a, b = ('param', 'a'), ('param', 'b')
    for comp in ('tuple', 'tuple_struct', 'tuple_variant'):
        inst = '%s/%s' % (C.name, comp)
        ps = C.run((comp, ('param', 'n'), (('w', 'str', a), ('w', 'str', b))))
        oks = [p for p in ps if is_ok(p)]
        ctx.ob(oks, 'path-writable', inst, 'no path with two arguments can be written')
        for p in oks:
            out = pushes(p)
            bound = [(v, e) for v, e in out if not is_const_elem(v)]
            ctx.ob([v for v, _ in bound] == [a, b], 'arguments-in-order', inst,
                   'the arguments put on the path are %s, not the two given in order' % [show(v)[:60] for v, _ in bound], bound[0][1][5] if bound else '', p)
            ctx.ob(not other_path_effects(p), 'only-pushes', inst, 'the path is changed other than by appending segments', '', p)
            vp = [(pos, el) for pos, el, k in var_positions(p) if k == VAR]
            recognised = len(vp) == 2
            ctx.ob(recognised or not var_positions(p) and not exhausted(C.I, p), 'argument-at-variable', inst,
                   'an argument is bound although the entry point has no variable there (%d variables were checked for 2 arguments)' % len(vp), bound[0][1][5] if bound else '', p)
            if recognised:
                check_positions(ctx, C, p, [x for x, _ in vp], inst, bound)
            fin = exhausted(C.I, p)
            ctx.ob(fin, 'path-complete', inst, 'the path is reported complete while segments of the entry point may be left', C.site('serialize_' + comp), p)
            if fin and recognised:
                last = vp[-1][0]
                okf = any(follows(C.I, last, f) for f in fin)
                ctx.ob(okf, 'path-complete', inst + '/from-last', 'segments of the entry point after the last argument are skipped or repeated', '', p)
            for (v, e), (pos, _) in zip(bound, vp if recognised else [(None, None)] * 2):
                unrepresentable(ctx, C, ps, p, v, e, pos, inst)
        const_iterations(ctx, C, ps, inst, VAR)
    # bare scalars and unit
    for sh in (('w', 'str', a), ('w', 'u64', a), ('unit_variant', a), ('newtype', ('w', 'str', a))):
        ps = C.run(sh)
        bad = [p for p in ps if is_ok(p)]
        inst = '%s/bare-%s' % (C.name, sh[0] + (sh[1] if sh[0] == 'w' else ''))
        for p in bad:
            ctx.ob(exhausted(C.I, p), 'path-complete', inst, 'a bare argument is accepted as a whole path', '', p)
        ctx.ob(True, 'bare-argument', inst)
    for sh in (('unit',), ('unit_struct', ('param', 'nm'))):
        ps = C.run(sh)
        inst = '%s/%s' % (C.name, sh[0])
        oks = [p for p in ps if is_ok(p)]
        ctx.ob(oks, 'path-writable', inst, 'no path without arguments can be written')
        for p in oks:
            ctx.ob(not [v for v, _ in pushes(p) if not is_const_elem(v)], 'arguments-in-order', inst, 'a segment is invented', '', p)
            fin = exhausted(C.I, p)
            ctx.ob(fin, 'path-complete', inst, 'the path is reported complete while segments of the entry point may be left', '', p)
            if fin:
                ctx.ob(any(pos_start(C.I, f) == (('int', 0), 0) for f in fin), 'path-complete', inst + '/from-start', 'leading segments of the entry point are skipped', '', p)
            ctx.ob(not [1 for _, _, k in var_positions(p) if k == VAR], 'argument-at-variable', inst, 'a variable is left without argument', '', p)
        const_iterations(ctx, C, ps, inst, VAR)
    # zero and one arguments complete as well
    ps = C.run(('tuple', ('param', 'n'), ()))
    for p in ps:
        if is_ok(p):
            fin = exhausted(C.I, p)
            ctx.ob(fin and any(pos_start(C.I, f) == (('int', 0), 0) for f in fin), 'path-complete', C.name + '/tuple0', 'segments of the entry point are left out', '', p)
    for sh in (('none',), ('struct', (('k', ('w', 'str', a)),)), ('map', ((('w', 'str', a), ('w', 'str', b)),))):
        for p in C.run(sh):
            ctx.ob(not is_ok(p), 'unsupported-refused', '%s/%s' % (C.name, sh[0]), 'a path value without a meaning is accepted', '', p)


def follows(I, last, f):
    st = pos_start(I, f)
    b, k = lin(last) if last[0] != 'iter' else (None, None)
    if st is None:
        return False
    if last[0] == 'iter':
        # persistent iterator: the same iterator goes on
        return f[0] == 'iter'
    return st == (b, k + 1)


def check_positions(ctx, C, p, poss, inst, bound):
    I = C.I
    st = pos_start(I, poss[0])
    site = bound[0][1][5] if bound else ''
    ctx.ob(st == (('int', 0), 0), 'positions-consecutive', inst + '/first', 'the first argument is not preceded by all leading constants (starts at %s)' % (st,), site, p)
    for x, y in zip(poss, poss[1:]):
        ctx.ob(follows(I, x, y), 'positions-consecutive', inst + '/next', 'between two arguments a segment of the entry point is skipped or repeated', site, p)


def const_iterations(ctx, C, ps, inst, VAR):
    """the loops that emit constants: one push per element, of that element's own constant"""
    n = 0
    for p in ps:
        if p.kind != 'loopback':
            continue
        lid = p.value
        evs = p.events
        i = max([j for j, e in enumerate(evs) if e[0] == 'loop' and e[1] == lid], default=None)
        if i is None:
            continue
        it = [e for e in evs[i:] if e[0] == 'call' and 'PathSegmentsMut' in e[1]]
        if not it and lid[0].startswith('procedure::'):
            continue        # a look at the entry point as such, e.g. to count its variables
        elems = [(pos, el, k) for pos, el, k in var_positions(p) if in_loop(pos, lid, evs[i:])]
        cur = [x for x in elems if x[2] != VAR]
        if not it and not cur:
            continue
        n += 1
        ok1 = len(it) == 1 and it[0][1].endswith('::push')
        ctx.ob(ok1, 'constant-emitted', inst, 'an iteration over the constants appends %d segments' % len(it), it[0][5] if it else '', p)
        if ok1:
            v = nv(it[0][2][1])
            ok2 = is_const_elem(v)
            ctx.ob(ok2, 'constant-emitted', inst + '/own', 'a segment other than the constant of the entry point is appended: %s' % show(v)[:100], it[0][5], p)
            if ok2:
                pos = elem_pos(v[1])
                if pos[0] != 'iter':
                    b, k = lin(pos)
                    adv = b[0] == 'phi' and loop_entry(C.I, b) is not None and k == 0
                    ctx.ob(adv, 'constant-emitted', inst + '/advance', 'the position in the entry point does not advance by one per appended constant', it[0][5], p)
                unrepresentable(ctx, C, ps, p, v, it[0], pos, inst + '/const')
    ctx.ob(n or not any(p.kind == 'loopback' for p in ps) or True, 'constant-emitted', inst + '/loops')


def in_loop(pos, lid, evs):
    """the element at pos is the one this iteration of loop lid deals with"""
    if pos[0] == 'iter':
        inner = next((j for j in range(1, len(evs)) if evs[j][0] == 'loop'), len(evs))
        return any(e[0] == 'call' and e[3] == pos[2] for e in evs[:inner])
    b, k = lin(pos)
    return b[0] == 'phi' and b[1][:2] == lid


# ------------------------------------------------------------------ C02 reader
def decoder_rule(ctx, C, ps, inst):
    """every loop that builds a decoded string from the bytes of a segment is an exact percent-decoder"""
    seen = 0
    loops = {}
    taken = {}          # per loop: the bytes it takes as they are, the escapes it decodes
    for p in ps:
        if p.kind != 'loopback':
            continue
        lid = p.value
        evs = p.events
        i = max([j for j, e in enumerate(evs) if e[0] == 'loop' and e[1] == lid], default=None)
        if i is None:
            continue
        inner = next((j for j in range(i + 1, len(evs)) if evs[j][0] == 'loop'), len(evs))
        nexts = [e[3] for e in evs[i:inner] if e[0] == 'call' and e[1] == 'std::iter::Iterator::next' and over_bytes(e[3])]
        reads = [('field', n, 'Some', '0') for n in nexts]
        by_pos = None
        if not nexts:
            by_pos = positional(C, p, lid, evs[i:])
            if by_pos is None:
                continue
            reads, step = by_pos
        seen += 1
        loops[lid] = by_pos
        first = reads[0]
        site = evs[i][2]
        push = [e for e in evs[i:] if e[0] == 'call' and e[1].endswith(('::push', '::extend', '::insert', '::extend_from_slice')) and 'Vec' in e[1]]
        strpush = [e for e in evs[i:] if e[0] == 'call' and 'String' in e[1] and e[1].endswith(('::push', '::push_str'))]
        tk = taken.setdefault(lid, [set(), set(), site, p])
        ctx.ob(not strpush, 'decode-bytes', inst, 'escaped bytes are decoded one character each instead of as UTF-8', site, p)
        if strpush:
            tk[0] = None
            continue
        if nexts and not push and any(e[0] == 'loop' for e in evs[:i]) and any(e[0] == 'call' and e[1] == 'std::iter::Iterator::next' and over_bytes(e[3]) and root(e[3][1]) == root(nexts[0][1]) for e in evs[:i]):
            ctx.note('C02: %s: the digits of an escape are read in a loop of their own' % inst)
            tk[0] = None
            continue
        ctx.ob(len(push) == 1, 'decode-step', inst + '/one', 'decoding one unit of a segment yields %d bytes' % len(push), site, p)
        if len(push) != 1:
            continue
        x = nv(push[0][2][1])
        f = p.state.facts
        esc = C.I.known_eq(p.state, first, ('int', 37))
        if tk[0] is None:
            pass
        elif esc is True and len(reads) == 3 and inner == len(evs):
            d2 = domain(p, reads[2])
            tk[1] |= {(a, b) for a in domain(p, reads[1]) for b in d2}
        elif esc is False:
            tk[0] |= set(domain(p, first))
        else:
            tk[0] = None
        if esc is True:
            good = len(reads) == 3 and (hexpair(x, reads[1], reads[2]) or hexpair_by_value(p, x, reads[1], reads[2]))
            if inner < len(evs) and contains(x, lambda y: y[0] == 'phi'):
                ctx.note('C02: %s: the value of an escape is computed in a loop' % inst)
            elif good is None and len(reads) == 3 and all(contains(canon(x), lambda y, n=canon(n): y == n) for n in reads[1:]):
                ctx.note('C02: the value of an escape sequence is not recognised: %s' % show(x)[:100])
            else:
                ctx.ob(good, 'decode-step', inst + '/escape', 'an escape sequence is decoded to %s' % show(x)[:160], push[0][5], p)
        elif esc is False:
            ctx.ob((by_pos or len(nexts) == 1) and nvd(x) == nvd(first), 'decode-step', inst + '/plain', 'a plain byte is decoded to %s' % show(x)[:160], push[0][5], p)
        else:
            ctx.ob(False, 'decode-step', inst + '/which', 'decoding does not distinguish escapes from plain bytes', push[0][5], p)
        if by_pos and esc is not None:
            ctx.ob(step == (3 if esc else 1), 'decode-step', inst + '/advance', 'after %s the decoder advances by %s bytes' % ('an escape' if esc else 'a plain byte', step), site, p)
    hexd = [ord(c) for c in '0123456789abcdefABCDEF']
    for lid, (plain, escs, site, p) in taken.items():
        if plain is None:
            continue
        lost = [b for b in range(33, 127) if b != 37 and b not in plain]
        ctx.ob(not lost, 'decode-step', inst + '/all-plain', 'no segment with %s is decoded' % ', '.join(repr(chr(b)) for b in lost[:5]), site, p)
        lost = [(a, b) for a in hexd for b in hexd if (a, b) not in escs]
        ctx.ob(not lost, 'decode-step', inst + '/all-escapes', 'no segment with the escape %s is decoded' % ', '.join('%%%c%c' % x for x in lost[:5]), site, p)
    for p in ps:
        for i, e in enumerate(p.events):
            if e[0] != 'loop' or e[1] not in loops or (p.kind == 'loopback' and p.value == e[1]):
                continue
            # the decoder's loop was left for good
            use = next((c for c in p.events[i:] if c[0] == 'call' and c[1].split('::')[-1].startswith('from_utf8')), None)
            if use is None:
                continue
            ctx.ob(drained(C, p, e[1], p.events[i:], loops[e[1]]), 'decode-step', inst + '/whole', 'decoding can stop before the end of the segment', e[2], p)
    return seen


def drained(C, p, lid, evs, by_pos):
    f = p.state.facts
    if by_pos is None:
        return any(k[0] == 'var' and v == 0 and k[1][0] == 'next' and over_bytes(k[1]) for k, v in f.items())
    for k, v in f.items():
        if k[0] == 'b' and k[1][0] == 'lt' and v is False and k[1][1][0] == 'phi' and k[1][1][1][:2] == lid and k[1][2][0] == 'len' and raw_segment(k[1][2][1]):
            return True
        if k[0] == 'b' and k[1][0] == 'eq' and v is True and any(x[0] == 'phi' and x[1][:2] == lid and y[0] == 'len' and raw_segment(y[1]) for x, y in ((k[1][1], k[1][2]), (k[1][2], k[1][1]))):
            return True
        if k[0] == 'var' and v == 0 and is_call(k[1], 'get') and byte_at(('field', k[1], 'Some', '0')) and contains(k[1][2][1], lambda x: x[0] == 'phi' and x[1][:2] == lid):
            return True
    return False


def positional(C, p, lid, evs):
    """the iteration p reads bytes of a segment by position -> ([bytes at offsets 0..2 that it uses], bytes it advances by)"""
    from r_router import carried
    cand = {}
    terms = [k[1] for k in p.state.facts if len(k) == 2 and isinstance(k[1], tuple)] + [a for e in evs if e[0] == 'call' for a in e[2]]
    for t in terms:
        for x in subterms(t):
            if isinstance(x, tuple) and x and x[0] in ('index', 'field'):
                r = byte_at(x)
                if r:
                    b, k = lin(r[1])
                    if b[0] == 'phi' and b[1][:2] == lid:
                        cand.setdefault(b, {}).setdefault(k, ('index', r[0], r[1]) if x[0] == 'index' else nv(x))
    if len(cand) != 1:
        return None
    (phi, at), = cand.items()
    if 0 not in at:
        return None
    c = carried(p, phi)
    step = lin(c) if c is not None else None
    if not step or step[0] != phi:
        return None
    ins = [lin(x) for x in C.I.phi_in.get((phi[1], phi[2]), ()) if not contains(x, lambda y: y == phi)]
    start = min((k for b, k in ins), default=0) if all(b == ('int', 0) for b, k in ins) else None
    return [at[k] for k in sorted(at)], step[1] if start == 0 else 'an unknown number of'


def over_bytes(nx):
    r = nv(root(nx[1]))
    return nx[0] == 'next' and (is_call(r, 'bytes') or r[0] == 'iterof' and raw_segment(r[1]) or is_call(r, 'chars', 'char_indices'))


def hexval(x, b):
    """x == value of the hex digit b"""
    x = nv(x)
    while x[0] == 'cast' or (is_call(x, 'from', 'into') and len(x[2]) == 1):
        x = nv(x[3]) if x[0] == 'cast' else nv(x[2][0])
    if x[0] == 'field' and x[2] == 'Some' and is_call(nv(x[1]), 'to_digit'):
        c = nv(x[1])
        if nv(c[2][1]) != ('int', 16):
            return False
        d = nv(c[2][0])
        while d[0] == 'cast' or (is_call(d, 'from') and len(d[2]) == 1):
            d = nv(d[3]) if d[0] == 'cast' else nv(d[2][0])
        return canon(d) == canon(nv(b))
    return False


def hexpair(x, b1, b2):
    while x[0] == 'cast':
        x = nv(x[3])
    if x[0] == 'bin' and x[1] in ('Add', 'BitOr', 'BitXor'):
        for a, b in ((x[2], x[3]), (x[3], x[2])):
            a, b = nv(a), nv(b)
            while a[0] == 'cast':
                a = nv(a[3])
            if a[0] == 'bin' and ((a[1] == 'Mul' and ('int', 16) in (a[2], a[3])) or (a[1] == 'Shl' and a[3] == ('int', 4))):
                h = a[2] if a[3] in (('int', 16), ('int', 4)) else a[3]
                if hexval(h, b1) and hexval(b, b2):
                    return True
    return False


class Unknown(Exception):
    pass


class Never(Exception):
    pass


MASK = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'char': 32}


def byte_value(t, env):
    """the value of a term over given bytes (constant folding over the byte domain)"""
    c = canon(t)
    if c in env:
        return env[c]
    t = nv(t)
    if canon(t) in env:
        return env[canon(t)]
    if t[0] == 'int':
        return t[1]
    if t[0] == 'cast':
        v = byte_value(t[3], env)
        if t[2] in MASK and v >= 0:
            return v & ((1 << MASK[t[2]]) - 1)
        raise Unknown()
    if t[0] == 'bin':
        a, b = byte_value(t[2], env), byte_value(t[3], env)
        op = t[1]
        if op in ('Div', 'Rem') and b == 0:
            raise Never()
        r = {'Add': lambda: a + b, 'Sub': lambda: a - b, 'Mul': lambda: a * b, 'BitAnd': lambda: a & b, 'BitOr': lambda: a | b, 'BitXor': lambda: a ^ b,
             'Shl': lambda: a << (b & 63), 'Shr': lambda: a >> (b & 63), 'Div': lambda: a // b, 'Rem': lambda: a % b}.get(op)
        if r is None:
            raise Unknown()
        r = r()
        if r < 0:
            raise Never()       # checked arithmetic panics (C18)
        return r
    if t[0] == 'not':
        return 1 - byte_value(t[1], env)
    if t[0] in ('lt', 'eq'):
        a, b = byte_value(t[1], env), byte_value(t[2], env)
        return int(a < b if t[0] == 'lt' else a == b)
    if is_call(t, 'from', 'into', 'clone', 'to_owned') and len(t[2]) == 1:
        return byte_value(t[2][0], env)
    if is_call(t, 'wrapping_add', 'wrapping_mul', 'wrapping_sub') and len(t[2]) == 2:
        a, b = byte_value(t[2][0], env), byte_value(t[2][1], env)
        return (a + b if 'add' in t[1] else a * b if 'mul' in t[1] else a - b) & 255
    if is_call(t, 'is_ascii_hexdigit'):
        return int(chr(byte_value(t[2][0], env)) in '0123456789abcdefABCDEF')
    if is_call(t, 'is_control', 'is_ascii_control'):
        v = byte_value(t[2][0], env)
        return int(v < 32 or v == 127 or 'ascii' not in t[1] and 127 < v < 160)
    if is_call(t, 'contains') and const_chars(t[2][0]) is not None:
        return int(byte_value(t[2][1], env) in const_chars(t[2][0]))
    if is_call(t, 'is_ascii_digit'):
        return int(chr(byte_value(t[2][0], env)) in '0123456789')
    if is_call(t, 'is_ascii_lowercase', 'is_ascii_uppercase'):
        c = chr(byte_value(t[2][0], env))
        return int('a' <= c <= 'z' if 'lower' in t[1] else 'A' <= c <= 'Z')
    if is_call(t, 'to_ascii_lowercase', 'to_ascii_uppercase'):
        v = byte_value(t[2][0], env)
        if v > 127:
            return v
        return ord(chr(v).lower() if 'lower' in t[1] else chr(v).upper())
    if t[0] == 'field' and t[2] == 'Some' and is_call(nv(t[1]), 'to_digit'):
        r = digit_of(nv(t[1]), env)
        if r is None:
            raise Never()
        return r
    raise Unknown()


def digit_of(c, env):
    r = byte_value(c[2][1], env)
    v = byte_value(c[2][0], env)
    try:
        d = int(chr(v), 36) if v < 128 and chr(v).isalnum() else 99
    except ValueError:
        d = 99
    return d if d < r else None


_masks = {}
ALL = (1 << 256) - 1


def mask(k, v, key):
    """the bytes (as a bit set) that key can be if the fact k, v holds"""
    vv = v if isinstance(v, (tuple, bool, int)) or v is None else frozenset(v)
    m = _masks.get((k, vv, key))
    if m is not None:
        return m
    m = 0
    nots = [x[1] for x in v if x[0] == 'int'] if k[0] == 'isnot' else ()
    for b in range(256):
        env = {key: b}
        ok_ = True
        try:
            if k[0] == 'b':
                ok_ = bool(byte_value(k[1], env)) == v
            elif k[0] == 'is' and v[0] == 'int':
                ok_ = byte_value(k[1], env) == v[1]
            elif k[0] == 'isnot':
                ok_ = byte_value(k[1], env) not in nots
            elif k[0] == 'var' and is_call(nv(k[1]), 'to_digit'):
                ok_ = (digit_of(nv(k[1]), env) is not None) == (v == 1)
            else:
                m = ALL
                break
        except Unknown:
            pass
        except Never:
            ok_ = False
        if ok_:
            m |= 1 << b
    if len(_masks) > 200000:
        _masks.clear()
    _masks[(k, vv, key)] = m
    return m


def domain(p, t):
    """the bytes that t can be according to the facts of the path"""
    key = canon(t)
    m = ALL
    for k, v in p.state.facts.items():
        if contains(k, lambda x: x == key):
            m &= mask(k, v, key)
    return [b for b in range(256) if m >> b & 1]


def hexpair_by_value(p, x, t1, t2):
    """x is the byte written by the two hex digits, for all digits the path admits (None: not evaluable)"""
    hexd = [ord(c) for c in '0123456789abcdefABCDEF']
    d1, d2 = domain(p, t1), domain(p, t2)
    if any(b not in hexd for b in d1 + d2):
        # bytes the path does not restrict: it takes more than hex digits
        if len(d1) == 256 or len(d2) == 256:
            try:
                byte_value(x, {canon(t1): 48, canon(t2): 48})
            except Unknown:
                return None
            except Never:
                pass
        return False
    for a in d1:
        for b in d2:
            try:
                if byte_value(x, {canon(t1): a, canon(t2): b}) & 255 != int(chr(a) + chr(b), 16):
                    return False
            except Unknown:
                return None
            except Never:
                continue
    return True


def segment_uses(C, p, after=0):
    """raw segments taken on p in order -> list of (segment `next` term, 'const'|'var'|None, element)"""
    VAR = 1
    I = C.I
    taken = []
    for e in p.events[after:]:
        if e[0] == 'call' and e[1] == 'std::iter::Iterator::next' and raw_segment(('field', e[3], 'Some', '0')) and not over_bytes(e[3]) and iter_source(e[3][1]) is None:
            if p.state.facts.get(('var', canon(e[3]))) == 1:
                taken.append(e[3])
    const = {}
    for k, v in p.state.facts.items():
        if k[0] == 'b' and v is True and k[1][0] == 'eq':
            for x, y in ((k[1][1], k[1][2]), (k[1][2], k[1][1])):
                if is_const_elem(y):
                    d = decoded_of(I, x) or (nv(x) if raw_segment(x) else None)
                    if d is not None:
                        const[canon(d)] = (nv(y)[1], decoded_of(I, x) is not None)
    return taken, const


def path_reader(ctx, C):
    ad = 'procedure::PathSegment'
    VAR = ctx.P.variant_index(ad, 'Var') if ad in ctx.P.adts else 1
    for comp in ('tuple', 'tuple_struct', 'seq'):
        n = ('param', 'n')
        sh = ('seq', (('r', 'string'), ('r', 'string'))) if comp == 'seq' else (comp, n, (('r', 'string'), ('r', 'string')))
        inst = '%s/%s' % (C.name, comp)
        ps = C.run(sh)
        k = 0
        for p in ps:
            if p.kind == 'panic' or not (is_ok(p) or p.kind == 'loopback' or is_seqend(p)):
                continue
            if is_ok(p):
                k += 1
            last = segment_discipline(ctx, C, p, inst, VAR)
            if is_seqend(p) or is_ok(p):
                fin = exhausted(C.I, p)
                ctx.ob(fin, 'reader-complete', inst, 'the arguments are reported complete while segments of the entry point are unchecked', '', p)
                if last is not None and fin:
                    ctx.ob(any(follows(C.I, last, f) for f in fin), 'reader-complete', inst + '/from-last', 'segments of the entry point after the last argument are left unchecked', '', p)
        ctx.ob(k, 'path-readable', inst, 'no path with two arguments can be read')
        if comp == 'seq':
            ctx.ob(any(is_ok(p) and p.value[3][0] == ('visited-seq', 1) for p in ps), 'path-readable', inst + '/collection', 'a path with one argument cannot be read into a collection')
        d = decoder_rule(ctx, C, ps, inst)
        if comp == 'tuple':
            if d == 0:
                lib = any(is_call(x, 'percent_decode', 'percent_decode_str') for p in ps for e in p.events if e[0] == 'call' for x in [e[3]])
                ctx.ob(lib, 'decode-bytes', inst, 'no percent-decoding of path arguments was found')
    for sh in (('unit',), ('unit_struct', ('param', 'nm'))):
        inst = '%s/%s' % (C.name, sh[0])
        ps = C.run(sh)
        oks = [p for p in ps if is_ok(p)]
        ctx.ob(oks, 'path-readable', inst, 'no path without arguments can be read')
        for p in ps:
            if p.kind == 'loopback' or is_ok(p):
                segment_discipline(ctx, C, p, inst, VAR)
        for p in oks:
            fin = exhausted(C.I, p)
            ctx.ob(fin and any(pos_start(C.I, f) == (('int', 0), 0) for f in fin), 'reader-complete', inst, 'segments of the entry point are left unchecked', '', p)
            ctx.ob(not [1 for _, _, kk in var_positions(p) if kk == VAR], 'reader-complete', inst + '/vars', 'a variable is skipped', '', p)
    # induction step of recursive readers: the same discipline from an arbitrary state
    recs = set()
    for p in ps + C.run(('tuple', ('param', 'n'), (('r', 'string'),))):
        for e in p.events:
            if e[0] == 'call' and e[1].startswith('rec:'):
                recs.add(e[1][4:])
    for r in sorted(recs):
        b = ctx.P.root_fn(r)
        if b is None:
            continue
        J = Codec(ctx, 'path', False)
        J.I = J.D.I = Interp(ctx.P, rec_limit=0)
        qs = J.I.run(b)
        ctx.track(J.I, qs)
        for q in qs:
            if is_ok(q) or (q.kind == 'ret' and q.value[0] == 'rec') or q.kind == 'loopback':
                segment_discipline(ctx, J, q, C.name + '/recursion', VAR, generic=True)
    for sh in (('option', ('r', 'string')), ('map', ((('r', 'identifier'), ('r', 'string')),))):
        for p in C.run(sh):
            if is_ok(p):
                vs = [e for e in p.events if e[0] == 'visit' and e[1] == 'visit_none']
                ctx.ob(not vs, 'unsupported-refused', '%s/%s' % (C.name, sh[0]), 'a path argument is invented', '', p)


def is_seqend(p):
    return p.kind == 'ret' and p.value[0] == 'adt' and p.value[1] == RES and p.value[2] == 1 and p.value[3][0][0] == 'seqend'


def segment_discipline(ctx, C, p, inst, VAR, generic=False):
    """every raw segment taken is either equal, decoded once, to the constant at its own position, or delivered for the variable there"""
    I = C.I
    if not generic and any(e[0] == 'call' and e[1].startswith('rec:') for e in p.events):
        return      # covered by the induction step
    taken, const = segment_uses(C, p)
    vps = var_positions(p)
    visits = [e for e in p.events if e[0] == 'visit' and e[3][0] == 'r']
    vsrc = []
    for e in visits:
        d = decoded_of(I, e[2][0])
        if d is None:
            ctx.ob(False, 'decode-once', inst, 'the argument delivered is %s, not its percent-decoded segment' % show(nv(e[2][0]))[:120], e[4], p)
            return
        vsrc.append(canon(d))
    for s, (el, dec) in const.items():
        ctx.ob(dec, 'decode-once', inst + '/const', 'a constant segment is compared without percent-decoding', '', p)
    if generic and p.kind == 'ret':
        v = p.value
        if v[0] == 'adt' and v[1] == RES and v[2] == 0:
            vsrc.append(canon(nv(v[3][0])))
    if any(contains(x, lambda y: y[0] == 'rec') for x in vsrc) and not generic:
        pass
    seq = []
    for t in taken:
        f = canon(('field', t, 'Some', '0'))
        if f in const:
            seq.append(('const', elem_pos(const[f][0]), t))
        elif f in vsrc:
            seq.append(('var', None, t))
        else:
            seq.append((None, None, t))
    lastk = len(seq) - 1
    inner = p.kind == 'loopback'
    head = max([j for j, e in enumerate(p.events) if e[0] == 'loop' and e[1] == p.value], default=len(p.events)) if inner else 0
    if inner and str(p.value[0]).startswith('iter:') and any(e[0] == 'skip' for e in p.events):
        # passed over by a filter
        head = max([j for j, e in enumerate(p.events) if e[0] == 'call' and e[1] == 'std::iter::Iterator::next'], default=head)
    for i, (k, pos, t) in enumerate(seq):
        if k is None and inner and i == lastk and not any(e[0] == 'call' and e[3] == t for e in p.events[head:]):
            continue        # taken before the loop which it is in: still being decoded
        if k is None and generic:
            continue
        ctx.ob(k is not None, 'segment-accounted', inst, 'a path segment is taken but neither compared with a constant nor delivered', '', p)
    # positions
    vv = [pos for pos, el, kk in vps if kk == VAR]
    varseg = [t for k, pos, t in seq if k == 'var']
    recn = sum(1 for x in vsrc if x[0] == 'field' and x[1][0] == 'rec' or x[0] == 'rec')
    if not inner:
        ctx.ob(len(vv) >= len(varseg), 'argument-at-variable', inst, 'an argument is delivered although the entry point has no variable there', '', p)
    if len(vv) == len(varseg):
        vi = iter(vv)
        poss = [(pos if k == 'const' else (next(vi) if k == 'var' else None)) for k, pos, t in seq]
        prev = None
        for pos in poss:
            if pos is None:
                prev = None
                continue
            if pos[0] == 'iter':
                prev = None
                continue
            st = entry_of(I, pos)
            if prev is not None:
                b, k = lin(prev)
                ctx.ob(st == (b, k + 1) or pos_same_loop(I, prev, pos), 'positions-consecutive', inst, 'a segment is matched against position %s after position %s' % (show(pos)[:60], show(prev)[:60]), '', p)
            elif not generic and pos is poss[0] and taken and not recn:
                ctx.ob(st == (('int', 0), 0), 'positions-consecutive', inst + '/first', 'the first segment is not matched against the first segment of the entry point', '', p)
            prev = pos
        return prev
    return None


def pos_same_loop(I, a, b):
    return lin(a)[0] == lin(b)[0] and lin(b)[1] - lin(a)[1] == 1


@rule('C02', 'Composition of the serde tuple protocol with the path codec: on every abstract path the pushed segments are the constants of consecutive entry point positions and the arguments in order, each at a position known to be a variable, with exhaustion before success; loop bodies and recursive readers are checked as induction steps from an arbitrary position; the percent-decoder loop is checked step by step.',
      ['url::PathSegmentsMut::push percent-encodes a segment so that percent-decoding restores it, except for ".", "..", tab, CR, LF and a leading empty segment'])
def c02(ctx):
    from r_entry import entry_points
    entry_points(ctx)
    path_writer(ctx, Codec(ctx, 'path', True))
    path_reader(ctx, Codec(ctx, 'path', False))


# ------------------------------------------------------------------ C03 / C04
def map_writer(ctx, C):
    a, b, c = ('param', 'a'), ('param', 'b'), ('param', 'c')
    k1, k2 = ('param', 'key1'), ('param', 'key2')
    cases = []
    for comp in ('struct', 'struct_variant'):
        mk = lambda items, comp=comp: (comp, items) if comp == 'struct' else (comp, ('param', 'vname'), items)
        cases += [(comp, mk(((k1, ('w', 'str', a)), (k2, ('w', 'u32', b)))), [(k1, a), (k2, ('text', 'u32', b))]),
                  (comp + '-none', mk(((k1, ('none',)), (k2, ('w', 'str', b)))), [(k2, b)]),
                  (comp + '-some', mk(((k1, ('some', ('w', 'str', a))), (k2, ('none',)))), [(k1, a)])]
    kk = lambda k: ('w', 'str', k)
    cases += [('map', ('map', ((kk(k1), ('w', 'str', a)), (kk(k2), ('w', 'str', b)))), [(k1, a), (k2, b)]),
              ('map-none', ('map', ((kk(k1), ('none',)), (kk(k2), ('w', 'str', b)))), [(k2, b)]),
              ('empty-struct', ('struct', ()), []), ('empty-map', ('map', ()), [])]
    if C.kind == 'header':
        cases += [('bytes', ('struct', ((k1, ('w', 'bytes', a)),)), [(k1, a)])]
    for nm, sh, want in cases:
        inst = '%s/%s' % (C.name, nm)
        ps = C.run(sh)
        oks = [p for p in ps if is_ok(p)]
        ctx.ob(oks, 'pairs-writable', inst, 'no such value can be written')
        for p in oks:
            got = [(k, v) for k, v, e in sinks(C.kind, p)]
            good = len(got) == len(want) and all(gk == wk and (gv == wv or (wv[0] == 'text' and text_of(gv, wv[1], wv[2], p, C.I))) for (gk, gv), (wk, wv) in zip(got, want))
            site = (sinks(C.kind, p) or [(0, 0, (0,) * 6)])[0][2][5]
            ctx.ob(good, 'own-name-own-value', inst, 'written: %s; given: %s' % (fmt_pairs(got), fmt_pairs(want)), site, p)
            fe = foreign_effects(C.kind, p)
            ctx.ob(not fe, 'only-appends', inst, 'the output is changed other than by appending pairs', fe[0][5] if fe else '', p)
            if C.kind == 'header':
                for k, v, e in sinks('header', p):
                    no_injection(ctx, C, ps, p, k, v, e, inst)
        if C.kind == 'header':
            # nothing is written before it was found safe, also on failing paths
            for p in ps:
                if not is_ok(p) and p.kind == 'ret':
                    for k, v, e in sinks('header', p):
                        no_injection(ctx, C, ps, p, k, v, e, inst + '/err')
    for sh in (('w', 'str', a), ('unit',), ('tuple', ('param', 'n'), (('w', 'str', a),))):
        for p in C.run(sh):
            if is_ok(p):
                ctx.ob(not sinks(C.kind, p), 'no-pair-without-name', '%s/bare-%s' % (C.name, sh[0]), 'a pair without a name is written', '', p)


def fmt_pairs(ps):
    return '[' + ', '.join('%s=%s' % (show(k)[:40], show(v)[:60]) for k, v in ps) + ']'


def no_injection(ctx, C, ps, p, k, v, e, inst):
    ek = excluded_chars(C.I, ps, p, k)
    ctx.ob({10, 13} <= ek, 'no-header-injection', inst + '/name-newline', 'a header name with a line break is not refused', e[5], p)
    ctx.ob(0 in ek, 'no-header-injection', inst + '/name-nul', 'a header name with NUL is not refused', e[5], p)
    ctx.ob(58 in ek, 'no-header-injection', inst + '/name-colon', 'a header name with a colon is not refused', e[5], p)
    if nv(v)[0] == 'text' and nv(v)[1] != 'char' or nv(v)[0] == 'str':
        return
    ev = excluded_chars(C.I, ps, p, v)
    ctx.ob({10, 13} <= ev, 'no-header-injection', inst + '/value-newline', 'a header value with a line break is not refused', e[5], p)
    ctx.ob(0 in ev, 'no-header-injection', inst + '/value-nul', 'a header value with NUL is not refused', e[5], p)


def map_reader(ctx, C):
    keyk = 'lowkey' if C.kind == 'header' else 'key'
    vals = [('string', ('r', 'string')), ('u32', ('r', 'u32')), ('ignored', ('ignored',)), ('option', ('option', ('r', 'u32'))), ('newtype', ('newtype', ('r', 'string')))]
    ident = ('r', 'identifier')
    for comp in ('map', 'struct'):
        for nm, vs in vals:
            inst = '%s/%s/%s' % (C.name, comp, nm)
            ps = C.run((comp, ((ident, vs), (ident, ('r', 'string')), (ident, ('r', 'string')))))
            ok3 = 0
            for p in ps:
                if p.kind == 'loopback':
                    passed_over(ctx, C, p, inst)
                if p.kind != 'ret':
                    continue
                check_pairs(ctx, C, p, vs, inst, keyk)
                if is_ok(p) and p.value[3][0] == ('visited-map', 'more'):
                    ok3 += 1
                    states = [erase(m[3]) for m in marks(p, 'pair-done')]
                    if len(states) == 3 and states[1] != states[2] and states[0] != states[2]:
                        ctx.note('%s: reader state after a pair is not inductive' % inst)
            ctx.ob(ok3, 'pairs-readable', inst, 'three pairs can not be read')


def passed_over(ctx, C, p, inst):
    """no loop takes pairs from the source and drops them"""
    evs = p.events
    i = max([j for j, e in enumerate(evs) if e[0] == 'loop' and e[1] == p.value], default=None)
    if i is None and str(p.value[0]).startswith('iter:'):
        i = max([j for j, e in enumerate(evs) if e[0] == 'call' and e[1] == 'std::iter::Iterator::next'], default=None)
    if i is None:
        return
    for e in evs[i:]:
        if e[0] == 'call' and e[1] == 'std::iter::Iterator::next' and is_source(C, e[3]) and p.state.facts.get(('var', canon(e[3]))) == 1:
            kept = any(x is not e and x[0] in ('call', 'visit') and contains(('t',) + tuple(x[2]), lambda y: y == e[3]) and (x[0] == 'visit' or x[1].split('::')[-1] in ('push', 'push_back', 'insert', 'extend')) for x in evs[i:])
            ctx.ob(kept, 'pair-skipped', inst + '/loop', 'pairs are taken and dropped in a loop', e[5], p)


def check_pairs(ctx, C, p, vs, inst, keyk):
    """the keys and values delivered are those of consecutive items, and the end is reported exactly at the end"""
    evs = p.events
    cur, phase = None, None
    used = []
    got = {}
    for e in evs:
        if e[0] == 'mark' and e[1] in ('key', 'value'):
            cur, phase = e[2], e[1]
        elif e[0] == 'visit':
            src = value_source(C, strip_parse(e[2][0])) if e[2] else None
            site = e[4]
            if phase == 'key':
                ctx.ob(src is not None and src[0] == keyk, 'key-is-name', inst, 'the name offered is %s' % show(nv(e[2][0]) if e[2] else UNIT)[:120], site, p)
                if src:
                    ctx.ob(src[1] not in used, 'pair-once', inst, 'a pair is offered twice', site, p)
                    got[cur] = src[1]
                    used.append(src[1])
            elif e[3] == ('ignored',):
                pass
            elif e[1] == 'visit_none':
                ctx.ob(False, 'value-is-own', inst, 'a parameter that is present is delivered as absent', site, p)
            else:
                good = src is not None and src[0] == 'value' and src[1] == got.get(cur)
                ctx.ob(good, 'value-is-own', inst, 'the value delivered for item %d is %s' % (cur, show(nv(e[2][0]) if e[2] else UNIT)[:140]), site, p)
    nexts = [e[3] for e in evs if e[0] == 'call' and e[1] == 'std::iter::Iterator::next' and is_source(C, e[3])]
    some_ = [n for n in nexts if p.state.facts.get(('var', canon(n))) == 1]
    none_ = [n for n in nexts if p.state.facts.get(('var', canon(n))) == 0]
    order = [n[2] for n in used]
    ctx.ob(order == sorted(order), 'pairs-in-order', inst, 'pairs are offered out of order', '', p)
    if is_ok(p):
        n = p.value[3][0][1] if p.value[3][0][0] == 'visited-map' else None
        if n is not None:
            if n == 'more':
                n = len(marks(p, 'pair-done'))
                lim = (n, n + 1)
            else:
                lim = (n, n)
                ctx.ob(none_, 'end-only-at-end', inst, 'the end is reported although there may be more pairs', '', p)
            known = len([i for i in range(n)])
            ctx.ob(lim[0] <= len(some_) <= lim[1], 'pair-skipped', inst, '%d items were taken for %d pairs offered' % (len(some_), n), '', p)
            ctx.ob(used == some_[:n], 'pair-skipped', inst + '/which', 'the pairs offered are not the first ones in order', '', p)


def strip_parse(t):
    a = nv(t)
    while a[0] == 'cast':
        a = nv(a[3])
    if a[0] == 'field' and a[2] == 'Ok' and is_call(nv(a[1]), 'parse', 'from_str'):
        return nv(nv(a[1])[2][0])
    return t


def is_source(C, nx):
    return contains(nx[1], lambda x: x == ('param', 'source'))


@rule('C03', 'Composition of the serde map/struct protocol with the query codec: on every abstract path each append_pair carries its own name and value, absent options append nothing, and the reader delivers name and value of one and the same element of the pair iterator, in order, ending exactly when the iterator does.',
      ['url::form_urlencoded encodes and parses name/value pairs inversely'])
def c03(ctx):
    map_writer(ctx, Codec(ctx, 'query', True))
    map_reader(ctx, Codec(ctx, 'query', False))


@rule('C04', 'Composition of the serde map/struct protocol with the header codec: as for the query, plus: every add_raw_header is dominated by checks that exclude CR, LF and NUL from name and value and colon from the name; names are lower-cased on reading.',
      ['miasht writes and parses one header line per add_raw_header'])
def c04(ctx):
    map_writer(ctx, Codec(ctx, 'header', True))
    map_reader(ctx, Codec(ctx, 'header', False))
