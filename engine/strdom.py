"""String abstract domain: sound 'this character cannot occur' and 'all
characters are within' judgements over string terms."""

from .values import Term, Tup, FSet

ALWAYS_SAFE = set('ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz'
                  '0123456789_.-~')
PCT = ALWAYS_SAFE | set('%')
DIGITS = set('0123456789')


class _Facts:
    def __init__(self, facts):
        self.facts = facts


def lacks(t, ch, facts=None):
    """ch certainly does not occur in the string denoted by t"""
    if facts is not None:
        t = facts.norm(t)
    if isinstance(t, (str, bytes)):
        try:
            return ch not in t
        except TypeError:
            return False
    if t is None or isinstance(t, (bool, int, float)):
        return ch not in str(t)
    if not isinstance(t, Term):
        return False
    if facts is not None:
        v = facts.truth.get(Term('in', (ch, t), 'bool'))
        if v is False:
            return True
        for p in ('isdigit', 'isdecimal', 'isalpha', 'isalnum', 'isnumeric'):
            if facts.truth.get(Term('m:' + p, (t,), 'bool')) is True and \
                    not getattr(ch, p)():
                return True
        for k, v in facts.truth.items():
            if k.op == 're' and k.args[2] is t and re_says_lacks(k, v, ch):
                return True
            if k.op == 'subset' and v is True and isinstance(
                    k.args[1], FSet) and isinstance(k.args[0], Term) and \
                    k.args[0].op == 'chars' and k.args[0].args[0] is t and \
                    ch not in k.args[1].items:
                return True
    op, a = t.op, t.args
    if op.startswith('url.') and isinstance(ch, str):
        from .urlmodel import part_lacks
        return part_lacks(op, ch)
    if op == 'cat':
        return all(lacks(p, ch, facts) for p in a)
    if op == 'quote':
        if not isinstance(ch, str) or not isinstance(a[1], str):
            return False
        if ch in '%ABCDEF0123456789':
            return False
        if ch == '+' and a[4]:
            return lacks(a[0], ' ', facts) and (
                '+' not in a[1] or lacks(a[0], '+', facts))
        if ch in ALWAYS_SAFE or ch in a[1]:
            if a[0].ty == 'bytes':
                return lacks(a[0], ch.encode('latin-1'), facts)
            return lacks(a[0], ch, facts)
        return True
    if op == 'select':
        return all(lacks(p, ch, facts) for p in a[0].items)
    if op == 'm:replace' and len(a) == 3:
        if a[1] == ch:
            return lacks(a[2], ch, facts)
        return lacks(a[0], ch, facts) and lacks(a[2], ch, facts)
    if op in ('m:lower', 'm:upper', 'm:title', 'm:capitalize'):
        if ch.isalpha():
            if isinstance(ch, str) and ch >= '\x80' or op not in (
                    'm:lower', 'm:upper'):
                return False
            if ch != (ch.lower() if op == 'm:lower' else ch.upper()):
                return True
            # and the characters outside of ASCII with such a counterpart
            more = {'k': '\u212a', 'i': '\u0130', 'S': '\u017f\ufb05\ufb06'
                    '\xdf', 'I': '\u0131'}.get(ch, '') if isinstance(
                        ch, str) else ''
            if isinstance(ch, str) and op == 'm:upper' and ch not in 'SI':
                # ligatures: decided for ASCII text only
                from . import rexmatch
                return facts is not None and isinstance(a[0], Term) and \
                    not rexmatch.Atom(_Facts(facts), a[0]).mask & (
                        ~0 << 128 | 1 << ord(ch) | 1 << ord(ch.lower()))
            return all(lacks(a[0], c, facts)
                       for c in [ch.lower(), ch.upper()] + list(more))
        return lacks(a[0], ch, facts)
    if op == 'm:encode' and isinstance(ch, bytes) and len(a) > 1 and \
            a[1] in ('ascii', 'utf-8', 'latin-1') and ch < b'\x80':
        return lacks(a[0], ch.decode('ascii'), facts) and (
            len(a) < 3 or a[2] in ('strict', 'ignore') or ch != b'?')
    if op == 'm:decode' and isinstance(ch, str) and len(a) > 1 and \
            a[1] in ('ascii', 'utf-8', 'latin-1') and ch < '\x80':
        return lacks(a[0], ch.encode('ascii'), facts)
    if op in ('m:strip', 'm:lstrip', 'm:rstrip', 'slice', 'm:removeprefix',
              'm:removesuffix'):
        return lacks(a[0], ch, facts)
    if op == 'elem' or op == 'item':
        b = a[0]
        if isinstance(b, Term):
            if b.op in ('m:split', 'm:rsplit'):
                if len(b.args) == 1 and isinstance(ch, str) and ch.isspace():
                    return True
                if len(b.args) == 2 and b.args[1] == ch:
                    return True
                return lacks(b.args[0], ch, facts)
            if b.op == 'm:splitlines':
                if ch in '\n\r' and len(b.args) == 1:
                    return True
                return lacks(b.args[0], ch, facts)
            if b.op in ('m:partition', 'm:rpartition'):
                i = a[1]
                if b.args[1] == ch and (b.op == 'm:partition' and i == 0 or
                                        b.op == 'm:rpartition' and i == 2):
                    return True
                return lacks(b.args[0], ch, facts)
            if b.ty in ('str', 'bytes'):
                return lacks(b, ch, facts)
        return False
    if op == 'str' and isinstance(a[0], Term) and a[0].ty == 'int':
        if ch == '-' and facts is not None and facts.lin:
            L = facts.lin_of(a[0])
            return L is not None and facts.lin_entails(L)
        return ch not in '-0123456789'
    if op == 'fmt' and isinstance(a[0], str) and a[0].endswith('d'):
        return ch not in '-0123456789 '
    if op == 'join':
        if not lacks(a[0], ch, facts):
            return False
        s = a[1]
        if isinstance(s, Term) and s.op in ('m:split', 'm:rsplit'):
            return lacks(Term('elem', (s, 0), 'str'), ch, facts)
        return False
    if op in ('m:encode', 'm:decode'):
        if isinstance(ch, str) and op == 'm:decode':
            return ord(ch) < 128 and lacks(a[0], ch.encode('ascii'), facts)
        if isinstance(ch, bytes) and ord(ch) < 128:
            return lacks(a[0], ch.decode('ascii'), facts)
        return False
    if op == 'group':
        if a[0].op != 'rem' or not isinstance(a[1], int) or not a[1]:
            return False
        pk, sub = a[0].args[1], a[0].args[2]
        if isinstance(sub, Term) and sub.ty == t.ty and lacks(sub, ch, facts):
            return True
        c = ch.decode('latin1') if isinstance(ch, bytes) else ch
        g = group_tree(pk.items[0], pk.items[1], a[1])
        return g is not None and tree_may_match(g, c) is False
    if op == 'ext':
        n = a[0]
        if n == 'html.escape':
            q = True
            for kw in a[1:]:
                if isinstance(kw, Tup) and kw.items and \
                        kw.items[0] == 'kw:quote':
                    q = kw.items[1]
            if len(a) > 2 and isinstance(a[2], bool):
                q = a[2]
            if ch in '<>':
                return True
            if ch in '"\'':
                return q is True
            if ch in '&;ltgamp#x27quo':
                return False
            return lacks(a[1], ch, facts)
        if n == 'urllib.parse.urljoin':
            c = ch if isinstance(ch, str) else ''
            return c != '/' and lacks(a[1], ch, facts) and lacks(
                a[2], ch, facts)
        if n == 're.sub':
            return sub_lacks(a, ch, facts)
        if n == 'unicodedata.normalize':
            return False
    return False


def sub_lacks(a, ch, facts):
    """characters of re.sub(class, constant, text)"""
    from . import rexmatch
    pat, flags = a[1].items
    rep, src = a[2], a[3]
    if not isinstance(pat, (str, bytes)) or not isinstance(flags, int) or \
            not isinstance(rep, (str, bytes)) or '\\' in str(rep)[1:]:
        return False
    if ch in rep:
        return False
    c = rexmatch.pattern_class(pat, flags)
    if c is not None and not rexmatch.starred(pat, flags) and \
            c >> ord(ch) & 1:
        return True
    return lacks(src, ch, facts)


# -- regular expressions -----------------------------------------------------
import re as _re            # noqa: E402
try:
    from re import _parser as _sre
except ImportError:                                      # pragma: no cover
    import sre_parse as _sre


def _parse(pat, flags):
    try:
        return _sre.parse(pat, flags if isinstance(flags, int) else 0)
    except Exception:
        return None


def group_tree(pat, flags, gi):
    """the parsed inside of group gi, if it occurs once"""
    if not isinstance(pat, (str, bytes)):
        return None
    flags = flags if isinstance(flags, int) else 0
    if flags & 2 or '(?i' in str(pat):
        return None
    tree = _parse(pat, flags)
    if tree is None:
        return None
    found = []

    def walk(seq):
        for op, av in seq:
            n = str(op)
            if n == 'SUBPATTERN':
                if av[0] == gi:
                    found.append(av[3])
                walk(av[3])
            elif n in ('MAX_REPEAT', 'MIN_REPEAT', 'POSSESSIVE_REPEAT'):
                walk(av[2])
            elif n == 'BRANCH':
                for b in av[1]:
                    walk(b)
            elif n == 'ATOMIC_GROUP':
                walk(av)
    walk(tree)
    return found[0] if len(found) == 1 else None


def node_may_match(op, av, ch):
    """could this regex node consume the character ch?  None: unknown"""
    n = str(op)
    c = ord(ch)
    if n == 'LITERAL':
        return av == c
    if n == 'NOT_LITERAL':
        return av != c
    if n == 'ANY':
        return ch != '\n'
    if n == 'IN':
        return in_class(av, ch)
    if n == 'AT':
        return False
    if n in ('MAX_REPEAT', 'MIN_REPEAT', 'POSSESSIVE_REPEAT'):
        return tree_may_match(av[2], ch)
    if n == 'SUBPATTERN':
        return tree_may_match(av[3], ch)
    if n == 'ATOMIC_GROUP':
        return tree_may_match(av, ch)
    if n == 'BRANCH':
        rs = [tree_may_match(b, ch) for b in av[1]]
        return True if True in rs else (None if None in rs else False)
    if n in ('ASSERT', 'ASSERT_NOT'):
        return False
    return None


def tree_may_match(tree, ch):
    rs = [node_may_match(op, av, ch) for op, av in tree]
    return True if True in rs else (None if None in rs else False)


def in_class(items, ch):
    neg = False
    hit = False
    for op, av in items:
        n = str(op)
        if n == 'NEGATE':
            neg = True
        elif n == 'LITERAL':
            hit = hit or av == ord(ch)
        elif n == 'RANGE':
            hit = hit or av[0] <= ord(ch) <= av[1]
        elif n == 'CATEGORY':
            cat = str(av)
            k = {'CATEGORY_SPACE': ch.isspace(), 'CATEGORY_DIGIT':
                 ch.isdigit(), 'CATEGORY_WORD': ch.isalnum() or ch == '_',
                 'CATEGORY_NOT_SPACE': not ch.isspace(),
                 'CATEGORY_NOT_DIGIT': not ch.isdigit(),
                 'CATEGORY_NOT_WORD': not (ch.isalnum() or ch == '_')
                 }.get(cat)
            if k is None:
                return None
            hit = hit or k
        else:
            return None
    return hit != neg


def single_char_pattern(tree):
    """set of predicates if the whole pattern matches exactly one char (or
    one-or-more of them): [(op, av)] alternatives, else None"""
    tree = list(tree)
    if len(tree) != 1:
        return None
    op, av = tree[0]
    n = str(op)
    if n in ('LITERAL', 'NOT_LITERAL', 'IN', 'ANY'):
        return [(op, av)]
    if n == 'SUBPATTERN':
        return single_char_pattern(av[3])
    if n in ('MAX_REPEAT', 'MIN_REPEAT') and av[0] == 1:
        return single_char_pattern(av[2])
    if n == 'BRANCH':
        out = []
        for b in av[1]:
            r = single_char_pattern(b)
            if r is None:
                return None
            out += r
        return out
    return None


def re_says_lacks(key, val, ch):
    """does the outcome `val` of the match `key` imply ch is absent?"""
    n, pk = key.args[0], key.args[1]
    pat, flags = pk.items
    if isinstance(ch, bytes):
        ch = ch.decode('latin1')
    if not isinstance(pat, (str, bytes)):
        return False
    tree = _parse(pat, flags)
    if tree is None:
        return False
    if n == 'search' and val is False:
        alts = single_char_pattern(tree)
        if alts:
            return any(node_may_match(op, av, ch) is True for op, av in alts)
        return False
    if n == 'fullmatch' and val is True:
        return tree_may_match(tree, ch) is False
    if n == 'match' and val is True and len(tree) and \
            str(tree[-1][0]) == 'AT' and \
            str(tree[-1][1]) == 'AT_END_STRING':
        return tree_may_match(tree, ch) is False
    return False


def re_recognised(key):
    n, pk = key.args[0], key.args[1]
    pat, flags = pk.items
    if not isinstance(pat, (str, bytes)):
        return False
    tree = _parse(pat, flags)
    if tree is None:
        return False
    if n == 'search':
        return single_char_pattern(tree) is not None
    return n in ('match', 'fullmatch')


KNOWN_PRED = {'isinstance', 'm:startswith', 'm:endswith', 'hasattr',
              'issubclass', 'nonempty', 'elem_exists', 'm:isdigit',
              'callable'}


def guard_atoms(facts):
    for k in facts.truth:
        yield k
    for a, b in facts.ne:
        yield a
        yield b
    for L, _ in facts.lin:
        for t in L.c:
            yield t
    for L in facts.nelin:
        for t in L.c:
            yield t
    for k in facts.rep:
        yield k


def status(t, ch, facts):
    """'lacks' | 'may' | 'unknown' for 'does ch occur in t'.  'may' only when
    every fact the path has about the string is of a kind this domain
    interprets completely."""
    if lacks(t, ch, facts):
        return 'lacks'
    t = facts.norm(t)
    if not isinstance(t, Term):
        return 'may'
    leaves = [x for x in t.walk() if isinstance(x, Term) and
              x.op == 'sym'] if hasattr(t, 'walk') else [t]
    base = set(leaves)
    for k in guard_atoms(facts):
        if not isinstance(k, Term) or k in base or k is t:
            continue
        if not any(x in base for x in k.walk()):
            continue
        if k.op in KNOWN_PRED:
            continue
        if k.op == 'in' and isinstance(k.args[0], (str, bytes)):
            continue
        if k.op == 're' and re_recognised(k):
            continue
        if k.op in ('m:lower', 'm:decode', 'm:encode', 'str', 'cat',
                    'm:strip'):
            continue
        return 'unknown'
    return 'may'


def node_needs(op, av, ch):
    """does every match of the node contain ch?"""
    n = str(op)
    if n == 'LITERAL':
        return av == ord(ch)
    if n == 'IN':
        return len(av) == 1 and str(av[0][0]) == 'LITERAL' and \
            av[0][1] == ord(ch)
    if n == 'SUBPATTERN':
        return tree_needs(av[3], ch)
    if n in ('MAX_REPEAT', 'MIN_REPEAT', 'POSSESSIVE_REPEAT'):
        return av[0] >= 1 and tree_needs(av[2], ch)
    if n == 'BRANCH':
        return all(tree_needs(b, ch) for b in av[1])
    return False


def tree_needs(tree, ch):
    return any(node_needs(op, av, ch) for op, av in tree)


def re_needs(key, ch):
    """every string for which the match `key` succeeds contains ch"""
    n, pk = key.args[0], key.args[1]
    pat, flags = pk.items
    if isinstance(ch, bytes):
        ch = ch.decode('latin1')
    if n not in ('match', 'search', 'fullmatch') or \
            not isinstance(pat, (str, bytes)) or not isinstance(flags, int) \
            or flags & _re.IGNORECASE:
        return False
    tree = _parse(pat, flags)
    return tree is not None and tree_needs(tree, ch)


def has(t, ch, facts):
    """ch certainly occurs in the string denoted by t"""
    t = facts.norm(t)
    if isinstance(t, (str, bytes)):
        try:
            return ch in t
        except TypeError:
            return False
    if not isinstance(t, Term):
        return False
    if facts.truth.get(Term('in', (ch, t), 'bool')) is True:
        return True
    if t.op == 'cat':
        return any(has(p, ch, facts) for p in t.args)
    for k, v in facts.truth.items():
        if v is True and k.op == 're' and k.args[2] is t and \
                re_needs(k, ch):
            return True
        if v is True and k.op in ('m:startswith', 'm:endswith') and \
                k.args[0] is t and len(k.args) == 2 and \
                type(k.args[1]) is type(ch) and ch in k.args[1]:
            return True
    return False
