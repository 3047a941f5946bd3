"""symbolic texts (z3 strings), and what the re module means for them.

Operations z3 has no exact counterpart for give an arbitrary text with the facts stated here about it:
  s.replace(a, b)       an arbitrary text; s itself if s is known to consist of characters (alpha) that a does not
  "..".format / %       pieces put together if the template is nothing but {} / %s and texts, an arbitrary text otherwise
Regular expressions are translated from the parse tree Python's own re module makes of the pattern in the code."""
import z3
from . import rt, vals
from .rt import Unsupported, ctx
from .vals import Sym, SBool, SNum, num, fresh_int

S = z3.StringSort()


def ex(x):
    if isinstance(x, SStr): return x.e
    if isinstance(x, str): return z3.StringVal(x)
    return None


class SStr(Sym):
    __slots__ = ('e', 'alpha', 'of')
    def __init__(self, e, alpha=None): self.e = e; self.alpha = alpha; self.of = None
    def __eq__(self, o):
        b = ex(o)
        return False if b is None else SBool(self.e == b)
    def __ne__(self, o):
        b = ex(o)
        return True if b is None else SBool(self.e != b)
    def __hash__(self): raise Unsupported('hash of a symbolic text')
    def __add__(self, o):
        b = ex(o)
        if b is None: return NotImplemented
        return SStr(z3.Concat(self.e, b))
    def __radd__(self, o):
        b = ex(o)
        if b is None: return NotImplemented
        return SStr(z3.Concat(b, self.e))
    def replace(self, a, b, *n):
        x, y = ex(a), ex(b)
        if n or x is None or y is None: raise Unsupported('replace')
        if self.alpha is not None and isinstance(a, str) and not set(a) <= self.alpha: return self
        return fresh('replaced')
    def startswith(self, p):
        if ex(p) is None: raise Unsupported('startswith')
        return SBool(z3.PrefixOf(ex(p), self.e))
    def endswith(self, p):
        if ex(p) is None: raise Unsupported('endswith')
        return SBool(z3.SuffixOf(ex(p), self.e))
    def __contains__(self, p):
        if ex(p) is None: raise Unsupported('in')
        return bool(SBool(z3.Contains(self.e, ex(p))))
    def strip(self, *a): raise Unsupported('strip')
    def __getattr__(self, k):
        if k.startswith('__') or k in ('_same_', '_snap_', '_irr_'): raise AttributeError(k)
        raise Unsupported('text.%s' % k)
    def __bool__(self): return ctx().decide(self.e != z3.StringVal(''))
    def _isinstance_(self, c): return c is str or c is object
    def _cls_(self): return str
    def _str_(self): return self
    def _len_(self): return SNum(z3.Length(self.e))
    def _intern_(self): return self
    def __repr__(self): return 'SStr(%s)' % self.e
    def __format__(self, spec): return '<text>'


def fresh(base='text'): return SStr(z3.String(ctx().name(base)))


INT = z3.Function('int of text', S, z3.IntSort())       # the number a text of digits stands for
STR = z3.Function('text of int', z3.IntSort(), S)       # the text of a number


def to_int(s):
    ctx().assume(INT(s.e) >= 0)
    return SNum(INT(s.e))


def of_int(n): return SStr(STR(n.e))


def template(sep, s, args):
    'the pieces of a template with the arguments in their places'
    def unknown():
        r = fresh('formatted'); r.of = (s, tuple(args)); return r
    if sep is None or s.count(sep) != len(args) or '{' in s.replace('{}', '') or (sep == '%s' and '%' in s.replace('%s', '')): return unknown()
    args = [of_int(a) if isinstance(a, SNum) and not isinstance(a, SBool) and a.e.is_int() else a for a in args]
    if any(ex(a) is None for a in args): return unknown()
    parts = s.split(sep); r = SStr(z3.StringVal(parts[0]))
    for a, p in zip(args, parts[1:]):
        r = r + a
        if p: r = r + p
    return r


# ---------------------------------------------------------------------------------------------------------------
# regular expressions

def _cls(items):
    rs = []; neg = False
    from re import _constants as K
    for op, av in items:
        if op is K.NEGATE: neg = True
        elif op is K.LITERAL: rs.append(z3.Re(chr(av)))
        elif op is K.RANGE: rs.append(z3.Range(chr(av[0]), chr(av[1])))
        elif op is K.CATEGORY: rs.append(_cat(av))
        else: raise Unsupported('regular expression %s' % op)
    r = z3.Union(*rs) if len(rs) > 1 else rs[0]
    return z3.Intersect(z3.AllChar(z3.ReSort(S)), z3.Complement(r)) if neg else r


def _cat(av):
    # Python's \w and \d know more than ASCII: the other characters are left out here only where the text is known to be ASCII
    raise Unsupported('character category %s' % av)


def regex(tree):
    'z3 regular expression of a parsed pattern without anchors'
    from re import _constants as K
    out = []
    for op, av in tree:
        if op is K.LITERAL: out.append(z3.Re(chr(av)))
        elif op is K.IN: out.append(_cls(av))
        elif op is K.ANY: out.append(z3.Intersect(z3.AllChar(z3.ReSort(S)), z3.Complement(z3.Re('\n'))))
        elif op in (K.MAX_REPEAT, K.MIN_REPEAT):
            lo, hi, sub = av; r = regex(sub)
            if hi is K.MAXREPEAT: out.append(z3.Star(r) if lo == 0 else z3.Plus(r) if lo == 1 else z3.Concat(z3.Loop(r, lo, lo), z3.Star(r)))
            else: out.append(z3.Loop(r, lo, hi))
        elif op is K.SUBPATTERN: out.append(regex(av[3]))
        elif op is K.BRANCH: out.append(z3.Union(*[regex(b) for b in av[1]]))
        else: raise Unsupported('regular expression %s' % op)
    if not out: return z3.Re('')
    return z3.Concat(*out) if len(out) > 1 else out[0]


def matches(pattern, flags, s, kind):
    'formula: re.match / fullmatch of the pattern succeeds on s'
    import re
    from re import _parser, _constants as K
    if flags & ~re.UNICODE: raise Unsupported('regular expression flags')
    tree = list(_parser.parse(pattern, flags))
    while tree and tree[0] == (K.AT, K.AT_BEGINNING): tree = tree[1:]
    ends = []
    while tree and tree[-1][0] is K.AT and tree[-1][1] in (K.AT_END, K.AT_END_STRING): ends.append(tree.pop()[1])
    r = regex(tree)
    if kind == 'fullmatch' or K.AT_END_STRING in ends: return z3.InRe(s, r)
    if K.AT_END in ends: return z3.InRe(s, z3.Concat(r, z3.Option(z3.Re('\n'))))
    if kind == 'match': return z3.InRe(s, z3.Concat(r, z3.Full(z3.ReSort(S))))
    raise Unsupported('re.%s' % kind)


class Match(Sym):
    'the match of a pattern with groups on a text'
    def __init__(self, s, pattern): self.s = s; self.g = {}; self.p = pattern
    def __bool__(self): return True
    def group(self, *k):
        if len(k) != 1: raise Unsupported('groups')
        i = self.p.groupindex.get(k[0], k[0])
        if i not in self.g:
            if i != 0 and not (isinstance(i, int) and i <= self.p.groups): raise IndexError('no such group')
            self.g[i] = self.s if i == 0 else fresh('group')
        return self.g[i]
    __getitem__ = group
    def groups(self, *a): return tuple(self.group(i + 1) for i in range(self.p.groups))


def run(kind, pattern, flags, s):
    import re
    if ctx().ghost.get('any match'): ok = ctx().choose(2, 'match') == 1
    else: ok = ctx().decide(matches(pattern, flags, s.e, kind))
    m = Match(s, re.compile(pattern, flags)) if ok else None
    if 'matches' in ctx().ghost: ctx().ghost['matches'].append((kind, pattern, s.e, m))
    return m


def stem_and_number(kind, pattern):
    'is this the pattern of a stem, an underscore and a number at the very end'
    import re
    from re import _parser, _constants as K
    t = list(_parser.parse(pattern))
    while t and t[0] == (K.AT, K.AT_BEGINNING): t = t[1:]
    if t and t[-1][0] is K.AT and t[-1][1] in (K.AT_END, K.AT_END_STRING): t = t[:-1]
    elif kind != 'fullmatch': return False
    if len(t) != 3 or kind not in ('match', 'fullmatch') or t[1] != (K.LITERAL, ord('_')) or t[0][0] is not K.SUBPATTERN or t[2][0] is not K.SUBPATTERN: return False
    a, b = list(t[0][1][3]), list(t[2][1][3])
    digit = [(K.IN, [(K.CATEGORY, K.CATEGORY_DIGIT)]), (K.IN, [(K.RANGE, (48, 57))])]
    return (t[0][1][0], t[2][1][0]) == (1, 2) and len(a) == 1 and len(b) == 1 and a[0][0] is K.MAX_REPEAT and a[0][1][1] is K.MAXREPEAT and list(a[0][1][2]) == [(K.ANY, None)] \
        and b[0][0] is K.MAX_REPEAT and b[0][1][0] == 1 and b[0][1][1] is K.MAXREPEAT and list(b[0][1][2])[0] in digit


def pieces(e):
    'the pieces a text was put together from'
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        out = []
        for x in e.children():
            for y in pieces(x):
                if out and z3.is_string_value(y) and z3.is_string_value(out[-1]): out[-1] = z3.StringVal(out[-1].as_string() + y.as_string())
                elif not (z3.is_string_value(y) and y.as_string() == ''): out.append(y)
        return out
    return [e]


class PatternProxy(object):
    'a compiled pattern of the module under test'
    def __init__(self, p): self._p = p
    def __getattr__(self, k):
        real = getattr(self._p, k)
        if k not in ('match', 'fullmatch', 'search'): return real
        def f(s, *a):
            if isinstance(s, SStr):
                if a: raise Unsupported('pattern.%s with a position' % k)
                return run(k, self._p.pattern, self._p.flags, s)
            return real(s, *a)
        return f


class ReMod(object):
    def __getattr__(self, k):
        import re
        real = getattr(re, k)
        if k not in ('match', 'fullmatch', 'search', 'sub', 'split', 'findall', 'compile'): return real
        def f(p, *a, **kw):
            if k == 'compile':
                return PatternProxy(re.compile(p, *a, **kw)) if isinstance(p, str) else real(p, *a, **kw)
            if any(isinstance(x, SStr) for x in a):
                if k in ('match', 'fullmatch', 'search') and isinstance(p, (str, PatternProxy)) and isinstance(a[0], SStr) and len(a) == 1 and set(kw) <= {'flags'}:
                    if isinstance(p, PatternProxy): return getattr(p, k)(a[0])
                    return run(k, p, kw.get('flags', 0), a[0])
                raise Unsupported('re.%s' % k)
            return real(p._p if isinstance(p, PatternProxy) else p, *a, **kw)
        return f
