"""Metadata of MDS files mean the same however they are spelt."""
import io
import itertools
import sys

import numpy as np

from mc import engine, mdsref, ref, sg

# as written, and what it is
NUMBERS = [('0', 0), ('7', 7), ('-12', -12), ('+3', 3), ('00045', 45), ('1234567890123', 1234567890123), ('2.', 2.), ('-.25', -.25),
           ('1.5', 1.5), ('3.600000000000E+03', 3600.), ('-1.0e-02', -.01), ('1E5', 1e5), ('2e3', 2000.), ('0.0', 0.)]
TEXTS = [('T', 'T'), ('Salt    ', 'Salt'), ('', ''), ('two words', 'two words'), ('12', '12'), ('a // b', 'a // b'), ('/* c */', '/* c */'),
         ('a, b', 'a, b'), ('x = [ 1 ];', 'x = [ 1 ];'), ('"', '"')]
# between two values of a list of numbers / of texts; {} stands for the indent of a line
COMMAS = [', ', ',', ',    ', ',\n', ',\n     ', ', // c\n', ',   // it, is = [ 5 ];\n ', ', /* c */ ', ',/* 9, 9 */', ',\n\n', ',\n// c\n', ',  \n /* ]; */\n',
          ',  // c // d\n', ', /* c */ // d\n']
BLANKS = [' ', '   ', '\n', '\n     ', ' // c\n', '   // 8 9\n ', ' /* c */ ', '\n\n', '\n// c\n', '  \n /* }; */\n', ' /* a */ /* b */ ']
# after the opening bracket, before the closing one
INSIDE = [(' ', ' '), ('', ''), ('\n', '\n'), ('\n ', '\n '), ('   ', '  '), (' // c\n', ' // c\n'), (' /* c */ ', ' /* c */ '), ('\n\n', '\n\n')]
EQUALS = [' = ', '=', '  =  ', ' =', '= ', ' /* c */ = ', ' = /* c */ ']
AFTER = ['\n', '   \n', ' // c\n', ' /* c */\n', '\n\n', '\n// c = [ 1 ];\n', '\n   /* c */\n', '']
BEFORE = ['', ' ', '    ', '\n', ' // c\n ', '/* c */\n', '/* c */ ']
FORMS = ['name', 'file', 'list', 'lines without ends', 'generator', 'stringio']


def entry(key, values, sep, inside=(' ', ' '), equals=' = ', before=' ', after='\n', quoted=False):
    """values: as written, sep: one for all or one between every two."""
    seps = [sep] * (len(values) - 1) if isinstance(sep, str) else list(sep)
    items = ["'{}'".format(v) for v in values] if quoted else values
    body = items[0] + ''.join(s + v for s, v in zip(seps, items[1:]))
    a, b = '{}' if quoted else '[]'
    return before + key + equals + a + inside[0] + body + inside[1] + b + ';' + after


def give(ch, text, form):
    lines = text.splitlines(keepends=True)
    if form == 'list':
        return lines
    if form == 'lines without ends':
        return tuple(text.split('\n'))
    if form == 'generator':
        return (line for line in lines)
    if form == 'stringio':
        return io.StringIO(text)
    ref.put(ch.tmp('F.meta'), text.encode())
    return ch.tmp('F.meta') if form == 'name' else open(ch.tmp('F.meta'))


def same(got, want):
    return list(got) == list(want) and all(
        isinstance(got[k], list) and len(got[k]) == len(v) and
        all(isinstance(g, type(w)) and g == w for g, w in zip(got[k], v)) for k, v in want.items())


def parse(ch, text, want, form):
    src = give(ch, text, form)
    got = ch.must('parsemeta of {!r}'.format(text), sg.mds.parsemeta, src)
    if form == 'file':
        src.close()
    ch.check(same(got, want), 'parsemeta of {!r}: {}', text, got)


def lists(sizes, kinds, forms):
    """Lists of every two (three) values, every separator; every layout around them."""
    def h(ch):
        kind = ch.choose('values', kinds)
        n = ch.choose('number', sizes)
        vals = TEXTS if kind == 'texts' else NUMBERS
        seps = BLANKS if kind != 'commas' else COMMAS
        k = [ch.choose('value', len(vals)) for _ in range(n)]
        sep = [ch.choose('separator', seps) for _ in range(n - 1)]
        form = ch.choose('given as', forms)
        ch.commit()
        v = [vals[i] for i in k]
        # (what ends an entry has to be on the line where it begins if it's in a text)
        if kind == 'texts' and any('}' in a for a, _ in v):
            raise engine.Skip()
        parse(ch, entry('key', [a for a, _ in v], sep, quoted=kind == 'texts'), {'key': [b for _, b in v]}, form)
        ch.state(kind, n, k, sep)
    return h


def layouts(forms):
    """Every layout around values."""
    def h(ch):
        kind = ch.choose('values', ['commas', 'blanks', 'texts'])
        inside = ch.choose('inside', INSIDE)
        equals = ch.choose('equals', EQUALS)
        before, after = ch.choose('before', BEFORE), ch.choose('after', AFTER)
        n = ch.choose('number', [1, 2])
        form = ch.choose('given as', forms)
        ch.commit()
        v = (TEXTS[1:3] if kind == 'texts' else NUMBERS[8:10])[:n]
        text = entry('a_Key2', [a for a, _ in v], ', ' if kind == 'commas' else ' ', inside, equals, before, after, kind == 'texts')
        other = entry('next', ['1'], '')
        if not after:
            parse(ch, other + text, {'next': [1], 'a_Key2': [b for _, b in v]}, form)
        else:
            parse(ch, text + other, {'a_Key2': [b for _, b in v], 'next': [1]}, form)
        ch.state(kind, inside, equals, before, after, n)
    return h


STYLES = [dict(), dict(inside=('\n ', '\n ')), dict(inside=('', ''), equals='='), dict(inside=(' /* c */ ', ' // c\n'), after=' // c\n'),
          dict(inside=('\n\n', '  '), before='/* c */\n', after='\n\n')]


def whole(styles, orders):
    """The metadata of a file, its entries in every order and in different layouts: parsemeta, readmeta, rdmds."""
    def h(ch):
        order = ch.choose('order', orders)
        s = ch.choose('layout', styles)
        sep = ch.choose('separator', [', ', ',\n ', ',', ', // c\n'])
        prec = ch.choose('precision', ['float32', 'float64'])
        tile = ch.choose('part', [((0, 2), (0, 3)), ((1, 3), (2, 5))])
        ch.commit()
        e = {'nDims': ['2'], 'dimList': [str(n) for lim, g in zip(tile[::-1], (5, 3)) for n in (g, lim[0] + 1, lim[1])],
             'nrecords': ['2'], 'timeStepNumber': ['36'], 'timeInterval': ['3.6E+03', '7.2E+03'],
             'dataprec': [prec], 'fldList': ['T       ', 'S       ']}
        want = {'nDims': [2], 'dimList': [int(n) for n in e['dimList']], 'nrecords': [2], 'timeStepNumber': [36],
                'timeInterval': [3600., 7200.], 'dataprec': [prec], 'fldList': ['T', 'S']}
        keys = [list(e)[i] for i in order]
        quoted = ('dataprec', 'fldList')
        text = ''.join(entry(k, e[k], ' ' if k in quoted + ('timeInterval',) else sep, quoted=k in quoted,
                             **(styles[(styles.index(s) + i) % len(styles)])) for i, k in enumerate(keys))
        # (MITgcm writes precision in square brackets)
        text = text.replace("{ 'float", "[ 'float").replace("64' }", "64' ]").replace("32' }", "32' ]")
        parse(ch, text, {k: want[k] for k in keys}, 'name')
        a = mdsref.values(2, [hi - lo for lo, hi in tile])
        mdsref.write(ch.tmp('F'), a, tile=list(tile), gdims=(3, 5), prec=prec)
        ref.put(ch.tmp('F.meta'), text.encode())
        gd, lo, hi, step, interval, m2g, meta = ch.must('readmeta', sg.mds.readmeta, ch.tmp('F.meta'))
        ch.check((tuple(gd), list(lo), list(hi), step, interval, m2g) ==
                 ((3, 5), [t[0] for t in tile], [t[1] for t in tile], [36], [3600., 7200.], None),
                 'readmeta of {!r}: {}', text, (gd, lo, hi, step, interval, m2g))
        ch.check(meta == {'nDims': [2], 'dimList': [5, 3], 'nrecords': [2], 'dataprec': [prec], 'fldList': ['T', 'S']},
                 'readmeta of {!r}: {}', text, meta)
        full = np.full((2, 3, 5), -3.)
        full[:, tile[0][0]:tile[0][1], tile[1][0]:tile[1][1]] = a
        got, its, meta = ch.must('rdmds', sg.mds.rdmds, ch.tmp('F'), fill_value=-3., returnmeta=True)
        ch.check(np.shape(got) == full.shape and np.array_equal(got, full), 'rdmds with {!r}: {}', text, got)
        ch.check(meta == {'ndims': [2], 'dimlist': [5, 3], 'nrecords': [2], 'dataprec': [prec], 'fldlist': ['T', 'S'],
                          'timestepnumber': [36], 'timeinterval': [[3600., 7200.]]}, 'rdmds with {!r}: metadata {}', text, meta)
        ch.state(order, styles.index(s), sep, prec, tile)
    return h


BROKEN = {'no =': (' =', ' '), 'no brackets': ('[ 1, 2 ]', '1, 2'), 'not opened': ('[ 1', '1'), 'not closed': ('2 ];', '2 ;'), 'no semicolon': ('];', ']'),
          'other bracket': ('2 ]', '2 }'), 'a word': ('1,', 'one,'), 'two in one': ('1,', '1-2,'), 'rubbish': (' key', ' ke y'),
          'a unit': ('2 ', '2m '), 'text outside': ('];', '] 5;'), 'parentheses': ('[ 1, 2 ]', '( 1, 2 )'), 'twice': ('2 ];', '2 ]; ];'), 'a point': ('2 ', '. '),
          'an exponent': ('2 ', 'e5 '), 'two points': ('2 ', '1.2.3 ')}


def broken(ch):
    """Text that is none of this is refused."""
    how = ch.choose('wrong', list(BROKEN))
    where = ch.choose('entry', ['only', 'first', 'last', 'middle'])
    inside = ch.choose('inside', [' ', '\n'])
    form = ch.choose('given as', FORMS)
    ch.commit()
    good = ' key = [ 1, 2 ];\n'
    bad = good.replace(*BROKEN[how])
    assert bad != good
    if inside == '\n':
        bad = bad.replace('[ ', '[\n').replace(' ]', '\n]')
    text = (' n = [ 3 ];\n' if where in ('last', 'middle') else '') + bad + (" f = { 'T' };\n" if where in ('first', 'middle') else '')
    o = ch.call(sg.mds.parsemeta, give(ch, text, form))
    ch.check(o.raised(ValueError), 'parsemeta of {!r}: {}', text, o)
    ch.state(how, where, inside)


# name, iteration it stands for (as one file, as tiles)
FILES = [('A.0000000002.meta', 2, None), ('A.0000000010.meta', 10, None), ('A.9999999999.meta', 9999999999, None), ('A.0000000000.meta', 0, None),
         ('A.0000000007.001.001.meta', None, 7), ('A.0000000007.002.001.meta', None, 7), ('A.0000000003.001.002.meta', None, 3),
         ('A.000000004.meta', None, None), ('A.00000000004.meta', None, None), ('A.meta', None, None), ('A.001.001.meta', None, None),
         ('A.0000000005.data', None, None), ('AB.0000000006.meta', None, None), ('B.0000000006.meta', None, None),
         ('A.0000000008.meta.old', None, None), ('A.x000000009.meta', None, None), ('A.0000000011.01.001.meta', None, None)]


def iterations(ch):
    """scanforfiles: every set of files, as a single one or tiles per iteration."""
    tiled = ch.flag('tiles')
    use = [f for f in FILES if f[1 + (not tiled)] is None]
    chosen = [f for f in use if ch.flag(f[0])]
    base = ch.choose('as', ['name', 'pattern'])
    ch.commit()
    for f, _, _ in chosen:
        ref.put(ch.tmp(f), b'')
    got = ch.must('scanforfiles', sg.mds.scanforfiles, ch.tmp('A') if base == 'name' else ch.tmp('[A]'))
    want = sorted({f[1 + tiled] for f in chosen} - {None})
    ch.check(list(got) == want, 'files {}: iterations {}, expected {}', [f[0] for f in chosen], got, want)
    ch.state(tiled, [f[0] for f in chosen])


def scenarios(tier):
    perms = list(itertools.permutations(range(7)))
    if tier == 'thorough':
        return [('lists', lists([1, 2], ['commas', 'blanks', 'texts'], FORMS)), ('long lists', lists([3], ['blanks', 'texts'], ['list'])),
                ('layouts', layouts(FORMS)), ('whole', whole(STYLES, perms)), ('broken', broken), ('iterations', iterations)]
    return [('lists', lists([1, 2], ['commas', 'blanks', 'texts'], ['list'])), ('forms', lists([1], ['commas', 'texts'], FORMS)),
            ('layouts', layouts(['list', 'name'])), ('whole', whole(STYLES, perms[::97] + [perms[-1]])), ('broken', broken), ('iterations', iterations)]


if __name__ == '__main__':
    sys.exit(engine.main(
        'P33', 'model_checking', scenarios,
        'texts generated from a grammar: numbers, texts, separators, comments, line breaks, layouts, orders of entries', [
            'no blank before a comma; comments end on their line, and are not in front of a semicolon; no apostrophes in texts'],
        {'quick': 'lists of up to two values, every layout, some orders of entries; 2^13 + 2^13 sets of files',
         'thorough': 'lists of up to three, every order of entries, in every form'}))
