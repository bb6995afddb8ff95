"""C15: a secured file name is harmless."""
import re
import unicodedata

from .lib import *
from .c17 import want
from engine import program as _program
from engine import rexmatch, strdom

RULE = ('secure_filename is followed for an unknown text: the character set '
        'of the result and its first and last character are derived in the '
        'string domain.  Texts of unknown words and every character up to '
        'U+00FF fix what becomes of harmless names and separators, on POSIX '
        'and on Windows.')
MIN_SCENARIOS = 20
U = 'verktyg.utils.'
SAFE = r'[A-Za-z0-9_.-]'
A = '[A-Za-z0-9]'
DEVICES = ('CON', 'AUX', 'COM1', 'COM2', 'COM3', 'COM4', 'LPT1', 'LPT2',
           'LPT3', 'PRN', 'NUL')


def scenarios(prog):
    out = []

    def add_(name, fn):
        def f(it, fn=fn, nt=False):
            fn(it, nt)

        def g(it, fn=fn):
            _program.EXT_CONST.update({
                'os.name': 'nt', 'os.path.sep': '\\', 'os.path.altsep': '/',
                'os.sep': '\\', 'os.altsep': '/', 'posixpath.sep': '\\',
                'posixpath.altsep': '/'})
            try:
                fn(it, True)
            finally:
                _program.EXT_CONST.clear()
        out.append(Scen(name + '.posix', f, 'secure_filename'))
        out.append(Scen(name + '.nt', g, 'secure_filename'))

    def sec(it, v):
        return it.facts.norm_deep(want(it, lambda: it.call(
            prog.get(U + 'secure_filename'), [v], {}), 'secure_filename'))

    def harmless(it, r, nt):
        oblige(it, 3)
        if isinstance(r, str):
            if not re.fullmatch('|'.join((
                    '', '[A-Za-z0-9-]', '[A-Za-z0-9-]%s*[A-Za-z0-9-]' % SAFE)
                    ), r) and not (nt and r[:1] == '_' and r[1:].split(
                        '.')[0].upper() in DEVICES):
                fail(it, 'an unsafe name: %r' % (r,))
            return
        parts = list(r.args) if isinstance(r, Term) and r.op == 'cat' \
            else [r]
        ok = rexmatch._mask_of(SAFE, 0, False)
        for p in parts:
            if isinstance(p, str):
                if not re.fullmatch(SAFE + '*', p):
                    fail(it, 'the name may contain %r' % (p,))
                continue
            bad = rexmatch.Atom(it, p).mask & ~ok
            if bad:
                c = chr((bad & -bad).bit_length() - 1)
                fail(it, 'the name may contain %r' % c)
        if nt and isinstance(parts[0], str) and parts[0][:1] == '_':
            r = it.getitem(r, slice(1, None)) if False else parts[1:] and \
                cat(it, parts[0][1:], *parts[1:])
        for c in '._':
            for f in ('startswith', 'endswith'):
                if it.truth(meth(it, r, f, c)):
                    fail(it, 'the name may %s %r' % (
                        {'startswith': 'start with',
                         'endswith': 'end with'}[f], c))

    def f_any(it, nt):
        harmless(it, sec(it, sym('name', 'str')), nt)
    add_('any', f_any)

    SHAPES = {
        'word': (['w'], ['w']), 'ext': (['w', '.', 'x'], ['w', '.', 'x']),
        'space': (['w', ' ', 'x', '.txt'], ['w', '_', 'x', '.txt']),
        'dirs': (['/', 'w', '/', 'x'], ['w', '_', 'x']),
        'up': (['../../', 'w', '/', 'x'], ['w', '_', 'x']),
        'many': (['w', ' \t\n  ', 'x'], ['w', '_', 'x']),
        'odd': (['w', '!$&\x00', 'x'], ['w', 'x']),
        'dotted': (['..', 'w', '..'], ['w']),
        'under': (['__', 'w', '__'], ['w']),
        'inner': (['w', '_-.', 'x'], ['w', '_-.', 'x']),
    }
    for name, (src, dst) in SHAPES.items():
        def f_shape(it, nt, src=src, dst=dst):
            v = {'w': word(it, 'w', '[d-k0-9]'), 'x': word(it, 'x', A)}
            r = sec(it, cat(it, *[v.get(s, s) for s in src]))
            exp = cat(it, *[v.get(s, s) for s in dst])
            harmless(it, r, nt)
            oblige(it)
            if not it.eq(r, exp):
                fail(it, '%r becomes %r, expected %r' % (src, r, exp))
        add_('shape.' + name, f_shape)

    def f_chars(it, nt):
        for i in list(range(256)) + [0x130, 0x2028, 0x2044, 0x2215, 0x2603,
                                     0xfb01, 0xff0e, 0xff0f, 0xff3c]:
            c = chr(i)
            r = sec(it, 'a%sb' % c)
            e = ''.join(x for x in unicodedata.normalize('NFKD', c)
                        if ord(x) < 128)
            e = ''.join('_' if x.isspace() or x in (
                '/\\' if nt else '/') else x if re.fullmatch(SAFE, x)
                else '' for x in e)
            e = re.sub('_+', '_', e) if e.strip('_') == '' else e
            oblige(it, 2)
            if r != 'a%sb' % e:
                fail(it, '%r becomes %r' % ('a%sb' % c, r))
            for s in (c, c + 'b', 'a' + c, '.' + c, c * 3 + 'x' + c * 3):
                harmless(it, sec(it, s), nt)
    add_('chars', f_chars)

    DOC = {'My cool movie.mov': 'My_cool_movie.mov',
           '../../../etc/passwd': 'etc_passwd',
           'i contain cool \xfcml\xe4uts.txt':
               'i_contain_cool_umlauts.txt', '': '', '..': '', '/': '',
           '.htaccess': 'htaccess', 'a/../b': 'a_.._b',
           '\uff0e\uff0e\uff0fx': 'x', '~root': 'root', '-rf': '-rf',
           'x\x00.txt': 'x.txt', ' . ': '', '._.': ''}

    def f_doc(it, nt):
        for v, e in DOC.items():
            oblige(it)
            r = sec(it, v)
            if r != e:
                fail(it, '%r becomes %r, expected %r' % (v, r, e))
            if sec(it, r) != r:
                fail(it, 'securing %r again gives %r' % (r, sec(it, r)))
    add_('examples', f_doc)

    def f_dev(it, nt):
        for d in DEVICES:
            for v in (d, d.lower(), d.capitalize(), d + '.txt',
                      d.lower() + '.tar.gz', d + '.'):
                r = sec(it, v)
                oblige(it)
                if nt and r.split('.')[0].upper() in DEVICES:
                    fail(it, '%r becomes the device %r' % (v, r))
                if r.lstrip('_') != v.rstrip('.'):
                    fail(it, '%r becomes %r' % (v, r))
            for v in (d + 'X', 'x' + d, 'x.' + d):
                oblige(it)
                if sec(it, v) != v:
                    fail(it, '%r becomes %r' % (v, sec(it, v)))
    add_('devices', f_dev)
    return out
