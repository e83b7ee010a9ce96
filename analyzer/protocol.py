"""Drives the public serde protocols of a (de)serializer over abstract user values.

A *shape* describes what a user's type does with serde (which serde methods it calls, in which order);
its leaves are opaque symbols.  The driver composes the abstract transfer functions of the analysed
impl in that order, so that rules can be stated over what reaches the wire (or the visitor), whatever
the private representation of the (de)serializer is.

writer shapes: ('w', method, term) scalar through Serializer::method; ('none',) ('some', s) ('unit',)
  ('unit_struct', name) ('unit_variant', name) ('newtype', s) ('newtype_variant', s) ('bytes', term)
  ('struct', ((key, s), ...)) ('struct_variant', variant, ((key, s), ...)) ('map', ((s, s), ...)) ('tuple', len, (s, ...))
  ('tuple_struct', len, (s, ...)) ('tuple_variant', len, (s, ...))
reader shapes: ('r', method) scalar through Deserializer::method; ('option', s) ('newtype', s) ('ignored',)
  ('map', ((kshape, vshape), ...)) ('struct', ...) ('tuple', n, (s, ...)) ('seq', ...) ('unit',) ('unit_struct', name)
"""
from interp import *

SER = 'serde::Serializer'
DE = 'serde::Deserializer'


def peel_ty(P, i):
    t = P.types[i]
    while t['k'] in ('ref', 'ptr'):
        t = P.types[t['args'][0]]
    return t


class Driver:
    def __init__(self, P, visitor_fails=False, ser_fails=False, **kw):
        self.P = P
        self.visitor_fails = visitor_fails
        self.I = Interp(P, hooks=[self.hook] + list(kw.pop('hooks', [])), **kw)
        self.keep = None

    # ---- lookup
    def impl(self, trait, path, method):
        bs = [b for b in self.P.impl_method(trait, lambda t: True, method)
              if peel_ty(self.P, b['self_ty']).get('path') == path]
        if not bs:
            return None
        return bs[0]

    def find_adt(self, name):
        """path of the local public type with this name"""
        for k in self.P.roots:
            b = self.P.bodies[k]
            if 'self_ty' in b:
                t = peel_ty(self.P, b['self_ty'])
                if t['k'] == 'adt' and t['path'].split('::')[-1] == name:
                    return t['path']
        return None

    def inherent(self, path, name):
        for k in self.P.roots:
            b = self.P.bodies[k]
            if b.get('name') == name and not b.get('trait') and 'self_ty' in b and peel_ty(self.P, b['self_ty']).get('path') == path:
                return b
        return None

    # ---- running
    def call(self, st, body, args):
        r = self.I.run_body(st, body, args)
        if r is None:
            raise AnalysisError('recursion in %s' % body['path'])
        return r

    def trait_call(self, st, trait, path, method, args):
        b = self.impl(trait, path, method)
        if b is None:
            raise MissingMethod('%s::%s of %s' % (trait, method, path))
        return self.call(st, b, args)

    def ret_ty(self, body):
        """T of a body returning Result<T, _>"""
        t = self.P.types[body['locals'][0]]
        return t['args'][0]

    def chain(self, outs, f):
        """apply f(state, okvalue) to every Ok result; other outcomes are passed through"""
        res = []
        for st, o in outs:
            if o[0] != 'ret':
                res.append((st, o))
                continue
            for s, r in split_result(self.I, st, o[1]):
                if r[0] == 'ok':
                    res += f(s, r[1])
                else:
                    res.append((s, ('ret', err(r[1]))))
        return res

    def mkref(self, st, v):
        o = ('X', st.fresh())
        st.objs[o] = v
        return ('ref', o, (), True)

    # ---- hook
    def hook(self, I, st, c, args, site, dty):
        tr, m = c.get('trait'), c.get('method')
        if tr == 'serde::Serialize' and m == 'serialize':
            v = peel(args[0])
            if v[0] == 'ref':
                v = peel(I.snapv(st, v))
            if v[0] == 'shapeval':
                t = peel_ty(self.P, c['targs'][-1])
                return self.ser(st, v[1], args[1], t.get('path'))
        if tr == 'serde::de::DeserializeSeed' and m == 'deserialize':
            v = peel(args[0])
            if v[0] == 'shapeseed':
                t = peel_ty(self.P, c['targs'][-1])
                return self.de(st, v[1], args[1], t.get('path'))
        if tr == 'serde::Deserialize' and m == 'deserialize':
            t = self.P.types[c['targs'][0]]
            if t['k'] == 'param' or t['k'] == 'alias' or True:
                pass
        if tr == 'serde::de::Visitor':
            v = peel(args[0])
            if v[0] == 'shapevisitor':
                return self.visit(st, v[1], m, args, c, site)
        return None

    # ---- writers
    def ser(self, st, sh, s, path):
        k = sh[0]
        T = lambda tr, m, *a: self.trait_call(st, tr, path, m, list(a))
        sv = lambda x: ('shapeval', x)
        if self.impl(SER, path, 'serialize_bool') is None:
            # not an analysed serializer: record
            v = ('call', 'serde::Serialize::serialize', (sv(sh), self.I.snapv(st, s)), st.fresh())
            st.emit(('call', 'serde::Serialize::serialize', (sv(sh), self.I.snapv(st, s)), v, {'path': 'serde::Serialize::serialize'}, ''))
            self.I.havoc_args(st, [s], 'serde::Serialize::serialize')
            return [(st, ('ret', v))]
        if k == 'w':
            return T(SER, 'serialize_' + sh[1], s, sh[2])
        if k == 'none':
            return T(SER, 'serialize_none', s)
        if k == 'some':
            return T(SER, 'serialize_some', s, sv(sh[1]))
        if k == 'unit':
            return T(SER, 'serialize_unit', s)
        if k == 'unit_struct':
            return T(SER, 'serialize_unit_struct', s, sh[1])
        if k == 'unit_variant':
            return T(SER, 'serialize_unit_variant', s, ('param', 'tyname'), ('param', 'vindex'), sh[1])
        if k == 'newtype':
            return T(SER, 'serialize_newtype_struct', s, ('param', 'tyname'), sv(sh[1]))
        if k == 'newtype_variant':
            return T(SER, 'serialize_newtype_variant', s, ('param', 'tyname'), ('param', 'vindex'), ('param', 'vname'), sv(sh[1]))
        comp = {'struct': ('serialize_struct', 'serde::ser::SerializeStruct', 'serialize_field'),
                'struct_variant': ('serialize_struct_variant', 'serde::ser::SerializeStructVariant', 'serialize_field'),
                'map': ('serialize_map', 'serde::ser::SerializeMap', None),
                'seq': ('serialize_seq', 'serde::ser::SerializeSeq', 'serialize_element'),
                'tuple': ('serialize_tuple', 'serde::ser::SerializeTuple', 'serialize_element'),
                'tuple_struct': ('serialize_tuple_struct', 'serde::ser::SerializeTupleStruct', 'serialize_field'),
                'tuple_variant': ('serialize_tuple_variant', 'serde::ser::SerializeTupleVariant', 'serialize_field')}[k]
        nm = ('param', 'tyname')
        n = ('param', 'len')
        a = {'struct': lambda: [nm, n], 'struct_variant': lambda: [nm, ('param', 'vindex'), sh[1], n],
             'map': lambda: [some(n)], 'seq': lambda: [some(n)], 'tuple': lambda: [sh[1]], 'tuple_struct': lambda: [nm, sh[1]],
             'tuple_variant': lambda: [nm, ('param', 'vindex'), ('param', 'vname'), sh[1]]}[k]()
        b0 = self.impl(SER, path, comp[0])
        outs = self.call(st, b0, [s] + a)
        cpath = peel_ty(self.P, self.ret_ty(b0)).get('path')
        if self.impl(comp[1], cpath, 'end') is None:
            return outs     # Impossible<..>: only error outcomes
        items = sh[-1]

        def start(st1, comp_v):
            r = self.mkref(st1, comp_v)
            outs = [(st1, ('ret', ok(UNIT)))]
            for it in items:
                def step(s2, _, it=it):
                    s2.emit(('mark', 'item', it))
                    if k in ('struct', 'struct_variant'):
                        return self.trait_call(s2, comp[1], cpath, comp[2], [r, ('str', it[0]) if isinstance(it[0], str) else it[0], sv(it[1])])
                    if k == 'map':
                        o1 = self.trait_call(s2, comp[1], cpath, 'serialize_key', [r, sv(it[0])])
                        return self.chain(o1, lambda s3, _: self.trait_call(s3, comp[1], cpath, 'serialize_value', [r, sv(it[1])]))
                    return self.trait_call(s2, comp[1], cpath, comp[2], [r, sv(it)])
                outs = self.chain(outs, step)

            def fin(s2, _):
                s2.emit(('mark', 'end'))
                return self.trait_call(s2, comp[1], cpath, 'end', [self.I.load(s2, r[1], r[2])])
            return self.chain(outs, fin)
        return self.chain(outs, start)

    # ---- readers
    def de(self, st, sh, d, path):
        if self.impl(DE, path, 'deserialize_bool') is None:
            sd = self.I.snapv(st, d)
            v = ok(('visited', sh, sd))
            st.emit(('call', 'seed', (('shapeseed', sh), sd), v, {'path': 'serde::de::DeserializeSeed::deserialize', 'de': path}, ''))
            return [(st, ('ret', v))]
        k = sh[0]
        vis = ('shapevisitor', sh)
        nm = ('param', 'tyname')
        m, a = {'r': lambda: ('deserialize_' + sh[1], []),
                'option': lambda: ('deserialize_option', []),
                'ignored': lambda: ('deserialize_ignored_any', []),
                'newtype': lambda: ('deserialize_newtype_struct', [nm]),
                'unit': lambda: ('deserialize_unit', []),
                'unit_struct': lambda: ('deserialize_unit_struct', [sh[1]]),
                'map': lambda: ('deserialize_map', []),
                'struct': lambda: ('deserialize_struct', [nm, ('param', 'fields')]),
                'seq': lambda: ('deserialize_seq', []),
                'tuple': lambda: ('deserialize_tuple', [sh[1]]),
                'tuple_struct': lambda: ('deserialize_tuple_struct', [nm, sh[1]]),
                'enum': lambda: ('deserialize_enum', [nm, ('param', 'variants')])}[k]()
        b = self.impl(DE, path, m)
        if b is None:
            raise MissingMethod('%s::%s' % (path, m))
        return self.call(st, b, [d] + a + [vis])

    def ty_of(self, c):
        return peel_ty(self.P, c['targs'][-1]).get('path')

    def visit(self, st, sh, m, args, c, site):
        k = sh[0]
        T = self.trait_call
        if m == 'visit_map' and k in ('map', 'struct'):
            path = self.ty_of(c)
            r = self.mkref(st, args[1])
            outs = [(st, ('ret', ok(UNIT)))]
            for i, (ks, vs) in enumerate(sh[-1]):
                def step(s, _, ks=ks, vs=vs, i=i):
                    s.emit(('mark', 'key', i))
                    o1 = T(s, 'serde::de::MapAccess', path, 'next_key_seed', [r, ('shapeseed', ks)])

                    def gotkey(s2, kv):
                        res = []
                        for s3, x in split_option(self.I, s2, kv):
                            if x is None:
                                s3.emit(('mark', 'nokey', i))
                                res.append((s3, ('ret', err(('mapend', i)))))
                            else:
                                s3.emit(('mark', 'value', i, self.I.snapv(s3, x)))
                                res += self.chain(T(s3, 'serde::de::MapAccess', path, 'next_value_seed', [r, ('shapeseed', vs)]),
                                                  lambda s4, y: self.after_pair(s4, r, i, y))
                        return res
                    return self.chain(o1, gotkey)
                outs = self.chain(outs, step)
            # ('mapend', i): the input ended after i pairs
            res = []
            for s, o in outs:
                if o[0] == 'ret' and o[1][0] == 'adt' and o[1][2] == 1 and o[1][3][0][0] == 'mapend':
                    res.append((s, ('ret', ok(('visited-map', o[1][3][0][1])))))
                elif o[0] == 'ret' and o[1] == ok(UNIT):
                    res.append((s, ('ret', ok(('visited-map', 'more')))))
                else:
                    res.append((s, o))
            return res
        if m == 'visit_seq' and k in ('seq', 'tuple', 'tuple_struct'):
            path = self.ty_of(c)
            r = self.mkref(st, args[1])
            outs = [(st, ('ret', ok(UNIT)))]
            for i, es in enumerate(sh[-1]):
                def step(s, _, es=es, i=i):
                    s.emit(('mark', 'elem', i))

                    def got(s2, ev):
                        res = []
                        for s3, x in split_option(self.I, s2, ev):
                            if x is None:
                                s3.emit(('mark', 'noelem', i))
                                res.append((s3, ('ret', err(('seqend', i)))))
                            else:
                                res += self.after_pair(s3, r, i, x)
                        return res
                    return self.chain(T(s, 'serde::de::SeqAccess', path, 'next_element_seed', [r, ('shapeseed', es)]), got)
                outs = self.chain(outs, step)
            if k == 'seq':      # a collection takes what there is: the end is not an error
                outs = [(s, ('ret', ok(('visited-seq', o[1][3][0][1]))) if o[0] == 'ret' and o[1][0] == 'adt' and o[1][2] == 1 and o[1][3][0][0] == 'seqend' else o) for s, o in outs]
            return outs
        if m in ('visit_some', 'visit_newtype_struct') and k in ('option', 'newtype'):
            return self.de(st, sh[1], args[1], self.ty_of(c))
        if m == 'visit_enum' and k == 'enum':
            return self.visit_enum(st, sh, args, c)
        sargs = self.I.snap(st, args[1:])
        v = ('visited', m, sargs)
        st.emit(('visit', m, sargs, sh, site))
        out = [(st, ('ret', ok(v)))]
        if self.visitor_fails:
            s2 = st.copy()
            out.append((s2, ('ret', err(('viserr', m)))))
        return out

    def after_pair(self, st, r, i, y):
        st.emit(('mark', 'pair-done', i, self.I.snapv(st, self.I.load(st, r[1], r[2])), self.I.snapv(st, y)))
        return [(st, ('ret', ok(UNIT)))]

    def visit_enum(self, st, sh, args, c):
        path = self.ty_of(c)
        o1 = self.trait_call(st, 'serde::de::EnumAccess', path, 'variant_seed', [args[1], ('shapeseed', ('r', 'identifier'))])

        def got(s, pair):
            name, acc = (pair[3] if pair[0] == 'adt' else (('field', pair, None, '0'), ('field', pair, None, '1')))
            b = self.impl('serde::de::EnumAccess', path, 'variant_seed')
            rt = self.P.types[self.ret_ty(b)]
            vpath = peel_ty(self.P, rt['args'][1]).get('path') if rt['k'] == 'tuple' else path
            s.emit(('mark', 'variant', self.I.snapv(s, name)))
            kind = sh[1]
            if kind == 'unit':
                return self.trait_call(s, 'serde::de::VariantAccess', vpath, 'unit_variant', [acc])
            if kind == 'struct':
                return self.trait_call(s, 'serde::de::VariantAccess', vpath, 'struct_variant', [acc, ('param', 'fields'), ('shapevisitor', ('struct', sh[2]))])
            if kind == 'newtype':
                return self.trait_call(s, 'serde::de::VariantAccess', vpath, 'newtype_variant_seed', [acc, ('shapeseed', sh[2])])
            raise AnalysisError('variant kind')
        return self.chain(o1, got)


class MissingMethod(AnalysisError):
    pass


def marks(p, name):
    return [e for e in p.events if e[0] == 'mark' and e[1] == name]


def paths(outs):
    return [Path(s, o[0], o[1] if len(o) > 1 else None, o[2] if len(o) > 2 else None) for s, o in outs]


def is_ok(p):
    return p.kind == 'ret' and p.value[0] == 'adt' and p.value[1] == RES and p.value[2] == 0


def is_err(p):
    return p.kind == 'ret' and p.value[0] == 'adt' and p.value[1] == RES and p.value[2] == 1
