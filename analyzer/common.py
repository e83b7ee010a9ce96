"""Obligations, findings and term helpers shared by the rules."""
from interp import *
from protocol import *


class Ctx:
    def __init__(self, prog, tier='quick'):
        self.P = prog
        self.tier = tier
        self.obs = []           # (rule, instance)
        self.viol = {}          # key -> (message, site, trace)
        self.notes = []
        self.npaths = 0
        self.bodies = set()
        self.sites = set()
        self._memo = {}

    def track(self, I, ps):
        self.npaths += len(ps)
        self.bodies |= I.visited
        self.sites |= I.sites

    def ob(self, cond, rule, inst, msg='', site='', path=None):
        """one obligation: rule applied to an instance (function, call site or path)"""
        self.obs.append((rule, inst))
        if not cond:
            key = '%s|%s' % (rule, inst)
            if key not in self.viol:
                self.viol[key] = (msg or rule, site, show_path(path) if path is not None else '')
        return cond

    def need(self, x, what):
        """an anchor that has to exist"""
        self.ob(x is not None and x != [], 'anchor', what, 'anchor not found: %s' % what)
        if x is None or x == []:
            raise Missing(what)
        return x

    def note(self, s):
        if s not in self.notes:
            self.notes.append(s)

    def at_least(self, n, got, what):
        self.ob(got >= n, 'floor', what, 'only %d instances of %s, expected at least %d' % (got, what, n))


class Missing(Exception):
    pass


COW = 'std::borrow::Cow'
UTF8 = ('std::str::from_utf8', 'core::str::from_utf8', 'std::string::String::from_utf8', 'core::str::<impl str>::from_utf8')


def is_call(t, *names):
    return t[0] == 'call' and any(t[1] == n or t[1].endswith('::' + n) for n in names)


def nv(t):
    """the value behind views: references, Cow variants, UTF-8 validated bytes"""
    while True:
        if t[0] in ('&', 'deref', 'box'):
            t = t[1]
        elif t[0] == 'adt' and t[1] == COW and len(t[3]) == 1:
            t = t[3][0]
        elif t[0] == 'field' and t[2] in ('Borrowed', 'Owned'):
            t = t[1]
        elif t[0] == 'field' and t[2] == 'Ok' and t[1][0] == 'call' and t[1][1] in UTF8:
            t = t[1][2][0]
        else:
            return t


_nvd = {}


def nvd(t):
    """nv applied everywhere (and reference-insensitive)"""
    if not isinstance(t, tuple) or not t:
        return t
    r = _nvd.get(t)
    if r is not None:
        return r
    u = nv(t) if isinstance(t[0], str) else t
    r = tuple(nvd(x) if isinstance(x, tuple) else x for x in u)
    if len(_nvd) > 300000:
        _nvd.clear()
    _nvd[t] = r
    return r


def prov(I, t, limit=20000):
    """all subterms a value was computed from, through loop-carried values"""
    seen, out, ids = set(), [], set()
    work = [t]
    while work and len(out) < limit:
        x = work.pop()
        for y in nodes(x, ids):
            out.append(y)
            if y and y[0] == 'phi':
                k = (y[1], y[2])
                if k not in seen:
                    seen.add(k)
                    work += list(I.phi_in.get(k, ()))
    return out


def calls(p, *names):
    return [e for e in p.events if e[0] == 'call' and any(match_name(e, n) for n in names)]


def evname(e):
    return e[1]


def fact_bool(p, term):
    return p.state.facts.get(('b', canon(term)))


def strict_subset(a, b):
    return a <= b


INT_BITS = {'i8': (1, 8), 'i16': (1, 16), 'i32': (1, 32), 'i64': (1, 64), 'i128': (1, 128), 'isize': (1, 64),
            'u8': (0, 8), 'u16': (0, 16), 'u32': (0, 32), 'u64': (0, 64), 'u128': (0, 128), 'usize': (0, 64)}


def lossless(a, b):
    if a == b:
        return True
    if a == 'f32' and b == 'f64':
        return True
    if a in INT_BITS and b in INT_BITS:
        (s1, n1), (s2, n2) = INT_BITS[a], INT_BITS[b]
        if s1 == s2:
            return n1 <= n2
        return s2 == 1 and s1 == 0 and n1 < n2
    return False


def strip_casts(t, ty):
    """t as a chain of lossless casts of a value of type ty -> (inner, final type) or None if lossy"""
    chain = []
    t = nv(t)
    while t[0] == 'cast':
        chain.append((t[1], t[2]))
        t = nv(t[3])
    cur = ty
    for f, g in reversed(chain):
        if f != cur or not lossless(f, g):
            return None
        cur = g
    return t, cur


def erase(t):
    """state comparison: iterator positions erased"""
    return stem(t)


# functions of strings that do not keep the text
BAD = ('to_lowercase', 'to_uppercase', 'to_ascii_lowercase', 'to_ascii_uppercase', 'trim', 'trim_start', 'trim_end', 'trim_matches',
       'trim_start_matches', 'trim_end_matches', 'trim_left', 'trim_right', 'replace', 'replacen', 'split_at', 'strip_prefix', 'strip_suffix')
