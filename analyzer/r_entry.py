"""C29: entry points and announced lengths are what they were built from."""
from common import *
from rules import rule
from r_router import ident, last, carried
from r_config import fchain, leaves, at, value, GIVEN
import machine

EP, SEG, BODY = ('param', 'ep'), ('param', 'seg'), ('param', 'body')
KIND = 'procedure::PathSegment'


def truth(t, seg, variant):
    """the value of a condition about a segment of a known variant; None: unknown"""
    t = ident(t)
    if t[0] in ('bool', 'int') and len(t) == 2:
        return bool(t[1])
    if t[0] in ('not', 'neg') or t[0] == 'un' and t[1] in ('Not', 'not'):
        v = truth(t[-1], seg, variant)
        return None if v is None else not v
    if t[0] in ('eq', 'ne') and len(t) == 3:
        for a, b in ((t[1], t[2]), (t[2], t[1])):
            a, b = ident(a), ident(b)
            if b == seg and a[0] == 'adt' and a[1] == KIND and (a[2] != variant or not a[3]):
                return (a[2] == variant) == (t[0] == 'eq')
    return None


def pred(M, f, seg, variant, depth):
    """the set of answers of a predicate on a segment of a variant"""
    st = State()
    o = ('X', 'seg')
    st.objs[o] = seg
    st.facts[('var', seg)] = variant
    a = ('ref', o, (), False)
    for i in range(depth):
        q = ('X', 'seg%d' % i)
        st.objs[q] = a
        a = ('ref', q, (), False)
    out = set()
    for s, r in M.I.call_value(st, f, [a], '', 0):
        if r[0] == 'ret':
            out.add(truth(r[1], seg, variant))
        elif r[0] != 'loopback':
            out.add(None)
    return out


def run(M, ty, fn, base):
    st = State()
    o = ('X', 'obj')
    st.objs[o] = base
    return machine.done(M.ctx, M, M.call(st, M.body_of(ty, fn), [('ref', o, (), False)]))


def entry_points(ctx):
    M = machine.Machine(ctx)
    I, P = M.I, ctx.P
    VAR, VAL = P.variant_index(KIND, 'Var'), P.variant_index(KIND, 'Val')
    # the segments given are kept and reported, all of them
    kept = None
    for s, v in value(ctx, M, 'EntryPoint', 'new', [GIVEN]):
        c = at(leaves(I, v), GIVEN)
        kept = c if kept is None else kept & c
    ctx.ob(kept, 'segments-as-given', 'new', 'an entry point does not consist of the segments it is made from')
    for p in run(M, 'EntryPoint', 'segments', EP):
        if p.kind == 'ret':
            ctx.ob(fchain(p.value, EP) in (kept or ()), 'segments-as-given', 'segments', 'the segments reported are %s' % show(p.value)[:80], '', p)
    # the wildcards are exactly the variable segments
    for p in run(M, 'PathSegment', 'as_option', SEG):
        if p.kind != 'ret':
            continue
        v, k = ident(p.value), p.state.facts.get(('var', SEG))
        if v[0] == 'adt' and v[1] == OPT and k is not None:
            if v[2] == 0:
                ctx.ob(k == VAR, 'variables-are-wildcards', 'none', 'a constant segment is reported as a variable', '', p)
            else:
                x = ident(v[3][0])
                ctx.ob(k == VAL and x[0] == 'field' and ident(x[1]) == SEG, 'variables-are-wildcards', 'some', 'a segment is reported as the constant %s' % show(x)[:60], '', p)
        else:
            ctx.ob(v[0] != 'adt', 'variables-are-wildcards', 'known', 'a segment is reported as %s whatever it is' % show(v)[:60], '', p)
    counts(ctx, M, kept, VAR, VAL)


def counts(ctx, M, kept, VAR, VAL):
    ps = run(M, 'EntryPoint', 'var_count', EP)
    for p in ps:
        if p.kind != 'ret':
            continue
        v = ident(p.value)
        if v[0] == 'call' and last(v) == 'count':
            src, ok_ = v[2][0], True
            while src[0] == 'adt' and src[1].startswith('iter:'):
                n = src[1].split(':')[-1]
                if n == 'filter':
                    for k, want in ((VAR, True), (VAL, False)):
                        got = pred(M, src[3][1], SEG, k, 1)
                        if None in got:
                            ctx.note('var_count: the filter is not understood')
                            ok_ = False
                        else:
                            ctx.ob(got == {want}, 'counts-variables', 'variable' if want else 'constant', 'var_count %s' % ('misses variable segments' if want else 'counts constant segments'), '', p)
                elif n in ('take', 'skip', 'step_by', 'take_while', 'skip_while', 'chain', 'zip'):
                    ctx.ob(False, 'counts-variables', 'all', 'var_count looks at part of the segments only', '', p)
                elif n not in ('cloned', 'copied', 'map', 'inspect', 'rev', 'enumerate', 'peekable', 'fuse'):
                    ok_ = False
                src = src[3][0]
            if ok_ and src[0] == 'iterof':
                ctx.ob(fchain(src[1], EP) in (kept or ()), 'counts-variables', 'source', 'var_count counts %s' % show(src)[:60], '', p)
        elif v[0] == 'phi' and v[3] == ('int', 0):
            for q in ps:
                if q.kind != 'loopback':
                    continue
                e = [(k, x) for k, x in q.state.facts.items() if k[0] == 'var' and k[1][0] == 'field' and k[1][2] == 'Some' and contains(k[1], lambda y: y[0] == 'next')]
                c = carried(q, v)
                if len(e) != 1 or c is None:
                    ctx.note('var_count: the loop is not understood')
                    continue
                step = 0 if ident(c) == v else 1 if ident(c)[0] in ('add', 'bin') and v in ident(c) and ('int', 1) in ident(c) else None
                if step is None:
                    ctx.note('var_count: the loop is not understood')
                    continue
                ctx.ob(step == (e[0][1] == VAR), 'counts-variables', 'variable' if e[0][1] == VAR else 'constant', 'var_count %s' % ('misses variable segments' if e[0][1] == VAR else 'counts constant segments'), '', q)
        else:
            ctx.note('var_count: %s is not understood' % show(v)[:60])
            ctx.ob(v[0] != 'int', 'counts-variables', 'known', 'var_count is %s whatever the segments' % show(v)[:60], '', p)


@rule('C29', 'The public descriptions of an entry point and of a body are run on arbitrary arguments: an entry point keeps and reports exactly the slice of segments it is made from; a segment is reported as a wildcard exactly if it is a variable, and otherwise as its own constant; the variables counted are exactly the variable segments of the whole entry point; the length reported for a body is the limit of its fixed-length reader and none is reported for the others.',
      ['the limit of std\'s Take is the number of bytes left, as announced when nothing was read'])
def c29(ctx):
    entry_points(ctx)
    # the announced length of a body
    M = machine.Machine(ctx)
    b = ctx.need(next((b for b in ctx.P.bodies.values() if b['local'] and b['path'] == 'content_length'), None), 'content_length')
    path = next((k for k in ctx.P.adts if k.endswith('io::BodyReader')), None)
    names = [v['name'] for v in ctx.P.adts[path]['variants']] if path else []
    fixed = names.index('FixedLength') if 'FixedLength' in names else None
    n = 0
    st = State()
    o = ('X', 'body')
    st.objs[o] = BODY
    for p in machine.done(ctx, M, M.I.run_body(st, b, [('ref', o, (), False)], keep=True)):
        if p.kind != 'ret':
            continue
        s, v = p.state, ident(p.value)
        if v[0] != 'adt' or v[1] != OPT:
            ctx.note('content_length: %s is not understood' % show(v)[:60])
            continue
        k, no = s.facts.get(('var', BODY)), s.facts.get(('notvar', BODY), ())
        if v[2] == 0:
            ctx.ob(k is not None and k != fixed or fixed in no, 'announced-length', 'none', 'no length is reported for a body that has one', '', p)
        else:
            n += 1
            x = ident(v[3][0])
            good = x[0] == 'call' and last(x) == 'limit' and contains(x, lambda y: y[0] == 'field' and y[2] == 'FixedLength' and ident(y[1]) == BODY)
            ctx.ob(good or x[0] == 'call' and last(x) != 'limit', 'announced-length', 'some', 'the length reported is %s' % show(x)[:80], '', p)
    ctx.ob(n, 'announced-length', 'reachable', 'no length is ever reported')
