"""C++ types as they appear in clang's AST -> internal type terms."""
import re

class Unsupported(Exception):
    pass

INTS = {
    'int': (32, True), 'unsigned int': (32, False), 'unsigned': (32, False),
    'long': (64, True), 'unsigned long': (64, False), 'long long': (64, True),
    'unsigned long long': (64, False), 'short': (16, True), 'unsigned short': (16, False),
    'char': (8, True), 'signed char': (8, True), 'unsigned char': (8, False),
    'size_t': (64, False), 'std::size_t': (64, False), 'ptrdiff_t': (64, True), 'std::ptrdiff_t': (64, True),
    'difference_type': (64, True), 'size_type': (64, False), 'int64_t': (64, True), 'uint64_t': (64, False),
    '__uint128_t': (128, False),
    'CNumberLabel': (64, True), 'BasisOpLabel': (64, True),
}
ALIASES = {
    'CoefReprVec': 'std::vector<CoefRepr>', 'OpReprVec': 'std::vector<OpRepr>',
    'SparCoefReprMat': 'SparMat<CoefRepr>', 'SparOpReprMatBase': 'SparMat<OpRepr>',
    'SparOpReprMatVec': 'std::vector<SparOpReprMat>', 'FSMNodeVec': 'std::vector<FSMNode>',
    'FSMPathVec': 'std::vector<FSMPath>',
    'std::string': 'std::basic_string<char>', 'string': 'std::basic_string<char>',
}


SHORT = {'IndexVec': ('vec', 'Index'), 'QNSectorVec': ('vec', 'QNSector')}      # class template name as written -> qualified name


ENUMS = {'std::_Ios_Openmode', '_Ios_Openmode'}


def register_short(records):
    for q in records:
        b = q.split('<')[0]
        if '<' in q and '::' in b:
            SHORT.setdefault(b.split('::')[-1], b)
    _cache.clear()


def register(typedefs):
    for n, u in typedefs.items():
        if n not in ALIASES and n not in INTS:
            ALIASES[n] = u
    _cache.clear()


def tokenize(s):
    return re.findall(r'::|[A-Za-z_][A-Za-z_0-9]*|\d+[uUlL]*|<|>|,|\*|&&|&|\(|\)|\[|\]|\.\.\.|-', s)


class P:
    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x


DROP = {'const', 'volatile', 'class', 'struct', 'enum', 'typename', 'constexpr', 'static', 'inline'}
_cache = {}


def parse(s):
    if s in _cache:
        return _cache[s]
    if '(' in s and ')' in s and not s.startswith('(lambda'):
        r = ('fn', s)
    elif s.startswith('(lambda'):
        r = ('lambda',)
    else:
        p = P(tokenize(s))
        try:
            r = _type(p)
        except IndexError:
            raise Unsupported('type ' + s)
    _cache[s] = r
    return r


def _type(p):
    words = []
    args = None
    while True:
        k = p.peek()
        if k is None:
            break
        if k in DROP:
            p.next()
            continue
        if k == '::':
            p.next()
            if words and args is None:
                words[-1] += '::'
            elif args is not None:
                # nested name after template args: X<..>::iterator
                nm = p.next()
                base = _mk(' '.join(words), args)
                sub = None
                if p.peek() == '<':
                    sub = _targs(p)
                words = [('nested', base, nm, sub)]
                args = None
                base2 = words[0]
                words = [base2]
            continue
        if re.match(r'[A-Za-z_]', k):
            p.next()
            if k == 'qlmps' and p.peek() == '::':
                p.next()
                continue
            if words and isinstance(words[-1], str) and words[-1].endswith('::'):
                words[-1] += k
            else:
                words.append(k)
            continue
        if k == '<':
            args = _targs(p)
            continue
        break
    if words and isinstance(words[0], tuple):
        t = _nested(words[0])
    else:
        t = _mk(' '.join(words), args)
    while p.peek() in ('*', '&', '&&', 'const', '[', '__restrict'):
        k = p.next()
        if k == '*':
            t = ('ptr', t)
        elif k in ('&', '&&'):
            t = ('ref', t)
        elif k == '[':
            t = ('arr', t)
            while p.next() != ']':
                pass
    return t


def _targs(p):
    assert p.next() == '<'
    out = []
    if p.peek() == '>':
        p.next()
        return out
    while True:
        k = p.peek()
        if re.match(r'\d', k) or k == '-':
            v = p.next()
            if v == '-':
                v += p.next()
            out.append(('num', v))
        else:
            out.append(_type(p))
        k = p.next()
        if k == '>':
            break
        if k != ',':
            raise Unsupported('template args near ' + k)
    return out


def _nested(w):
    _, base, nm, sub = w
    if base[0] in ('vec', 'map', 'set') and nm in ('iterator', 'const_iterator'):
        return ('iter', base)
    if base[0] == 'vec':
        if nm in ('value_type',):
            return base[1]
        if nm in ('reference', 'const_reference'):
            return ('ref', base[1])
        if nm == 'size_type':
            return ('int', 64, False)
        if nm == 'difference_type':
            return ('int', 64, True)
    if base[0] == 'map' and nm == 'size_type':
        return ('int', 64, False)
    return ('opaque', '%s::%s' % (show(base), nm))


def _mk(name, args):
    n = name
    if n.startswith('::'):
        n = n[2:]
    bare = n.split('::')[-1]
    if args is None:
        if n == 'bool' or n == '_Bool':
            return ('bool',)
        if n == 'void':
            return ('void',)
        if n in ('double', 'float', 'long double'):
            return ('float',)
        if n in INTS:
            return ('int',) + INTS[n]
        if bare in INTS:
            return ('int',) + INTS[bare]
        if n in ('nullptr_t', 'std::nullptr_t'):
            return ('ptr', ('void',))
        if n in ALIASES:
            return parse(ALIASES[n])
        if n == 'std::_Bit_reference' or bare == '_Bit_reference':
            return ('bitref',)
        if bare == '_Bit_iterator' or bare == '_Bit_const_iterator':
            return ('iter', ('vec', ('bool',)))
        if n in ENUMS or bare in ENUMS:
            return ('int', 32, True)
        return ('rec', n)
    if n in ('std::vector', 'vector'):
        return ('vec', args[0])
    if bare in ('IndexVec', 'QNSectorVec'):
        return ('vec', _mk(SHORT[bare][1], args))
    if n in ('std::map', 'map'):
        return ('map', args[0], args[1])
    if n in ('std::set', 'set'):
        return ('set', args[0])
    if n in ('std::pair', 'pair'):
        return ('pair', args[0], args[1])
    if n in ('std::basic_string', 'basic_string', 'std::__cxx11::basic_string'):
        return ('str',)
    if n in ('std::initializer_list', 'initializer_list'):
        return ('ilist', args[0])
    if bare == '__normal_iterator':
        return ('iter', args[1])
    if bare in ('_Rb_tree_iterator', '_Rb_tree_const_iterator'):
        a = args[0]
        if a[0] == 'pair':
            return ('iter', ('map', a[1], a[2]))
        return ('iter', ('set', a))
    if bare == 'remove_reference' or bare == 'remove_reference_t':
        a = args[0]
        return a[1] if a[0] == 'ref' else a
    if n in SHORT:
        n = SHORT[n]
    return ('rec', n + '<' + ', '.join(show(a) for a in args) + '>')


def show(t):
    k = t[0]
    if k == 'int':
        for n in ('int', 'unsigned int', 'long', 'unsigned long', 'short', 'unsigned short', 'char', 'unsigned char'):
            if INTS[n] == t[1:]:
                return n
        return 'int%d%s' % (t[1], 's' if t[2] else 'u')
    if k == 'bool':
        return 'bool'
    if k == 'float':
        return 'double'
    if k == 'void':
        return 'void'
    if k == 'vec':
        return 'std::vector<%s>' % show(t[1])
    if k == 'map':
        return 'std::map<%s, %s>' % (show(t[1]), show(t[2]))
    if k == 'pair':
        return 'std::pair<%s, %s>' % (show(t[1]), show(t[2]))
    if k == 'str':
        return 'std::string'
    if k == 'ptr':
        return show(t[1]) + ' *'
    if k == 'ref':
        return show(t[1]) + ' &'
    if k == 'rec':
        return t[1]
    if k == 'iter':
        return 'iter(%s)' % show(t[1])
    if k == 'num':
        return t[1]
    return str(t)


def of(node):
    """type of an AST node"""
    ty = node.get('type')
    if not ty:
        return ('void',)
    return parse(ty.get('desugaredQualType') or ty['qualType'])


def strip_ref(t):
    return t[1] if t[0] == 'ref' else t
