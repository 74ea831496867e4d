"""Generates device-tree sources: grammar-directed, with deliberate slips, plus token- and byte-level mutations.
Every random choice comes from the given random.Random."""

TOKENS = ['/dts-v1/', '/plugin/', '/memreserve/', '/bits/', '/include/', '/delete-node/', '/delete-property/',
          '/omit-if-no-ref/', '/foo/', ';', '=', '{', '}', '<', '>', '[', ']', '(', ')', ',', '/', '&', '&a', '&{/a}',
          '&{}', 'a', 'b', 'a:', '#c', '0', '1', '0x1f', '08', '"s"', '"', '@', '\\', '!', 'é', '€', '𝄞', ':', '-', '+',
          '.', '?', 'x@1', '/* c */', '// c\n', '/*', '&{/a', 'compatible', '#include', '__symbols__', '*', '|', '\t', '\r']

LONG31 = 'n' * 31
LONG32 = 'n' * 32
LABELS = ['a', 'b', 'lbl', '_x', 'L0', 'c_1']
NODES = ['a', 'b', 'node', 'n@0', 'n@1', 'cpu@1f', 'x,y.z_+-', 'soc', '__symbols__', 'uart@10,0']
PROPS = ['p', 'q', 'reg', 'compatible', 'status', '#cells', 'a?b', 'model', 'phandle', 'x.y', '-z', '+k', '#size-cells', 'a#', ',c', '.d', '_e']
STRINGS = ['', 's', 'ok', 'a b', 'x\\"y', 'b\\\\s', 'é', 'a/*b*/', 'l1\nl2', 'n\\n', '€uro', '𝄞', '//', ';}', 'tab\tx', '\\\\', '\\"', 'a\\é',
           'okay\\']
PATHS = ['/a', '/b', '/a/b', '/', '/node', '/n@0', '/a/n@1', '//a', '/a/', '/soc/uart@10,0', '/n', 'a', '/a//b', '/a/b/a', '/a/b/a/b', '/soc/a/b/node/n@0', '/a/b/c/d/e/f/g@1']
BADPATHS = ['', '/é', '/a b', '/' + LONG32, '/@1', '/1a', '/a@', '/a@1@2', '/a\n/b', '/ä@1/b!', '/𝄞/x!', '/a@' + LONG32, '/_a', '/a/+x/b@é', '/n@1 ', '/1' + LONG31, '/a/' + '_' * 33 + '@1',
            '/__symbols__', '/__symbols__@1', '/a?/b', '/a/b#']
NUMS = ['0', '1', '9', '10', '0x0', '0x10', '0xdeadbeef', '0xFFFFFFFF', '0xffffffff', '4294967295', '017', '00', '037777777777', '42', '0xABCdef12', '65536',
        '0x10000', '65535', '0x7fff8000', '16777216']
BADNUMS = ['0x', '08', '09', '0x100000000', '4294967296', '12a', '0xg', '0X10', '1u', '040000000000', '99999999999999999999', '0x1ffffffffffffffff',
           '0x00000000000000001', '00000000000000000009', '0b1', '1e3']
BIGNUMS = ['0xffffffffffffffff', '18446744073709551615', '0x100000000', '4294967296', '0x123456789abcdef0', '01777777777777777777777', '1234567890123456789']
BADBIG = ['18446744073709551616', '0x10000000000000000', '02000000000000000000000', '0x', '0z', '1x']
BYTES = ['00', 'ff', 'AB', 'a0', '0a', '0123', 'abcdef', '1234567890', 'e8', 'DEADbeef', '9f']
BADBYTES = ['0', 'abc', '0g', 'gg', 'zz', '0x1f', '12345', 'a_', 'a#', 'a+', '_0', 'x@', 'a@', 'A+', 'G0', '0G']
WSP = [' ', ' ', ' ', '\n', '\n', '\t', '  ', '\r\n', '\n\n    ', '\f']
COMMENTS = ['/* c */', '// x\n', '/**/', '/* é\n * y */', '//\n', '/***/', '/* "q" ; } */', '// a: b = <1>; {\n', '/*/ */', '/* a **/', '//é€𝄞\n', '/* 𝄞 */',
            '// c \\\n', '//\\\n', '/* \\*/', '/*/* */', '// */\n', '// /*\n', '/*//*/', '/* \n\n */', '//\t\n', '/*\r\n*/', '// x\r\n', '// x \r y\n', '/* \r */', '// \t\f \x0b x\n', '//\0\n', '/*\x01\x7f*/', '/*"*/', '//"\n', '/* \\" */', '///\n', '/*;*/',
            '//' + 'x' * 300 + '\n', '/*' + ' *' * 150 + '/']


class Doc:
    """One document as a list of tokens; white space is added by text()."""

    def __init__(self, rng, slip=0.0, size=8, depth=3, header=0.9, includes=(), plugin=0.05, cinc=0.02, labels=None, nodes=None, props=None,
                 refs=1.0, cats=None, dup=0.0, unit=1.0):
        self.r, self.slip, self.size, self.depth, self.header = rng, slip, size, depth, header
        self.includes, self.plugin, self.cinc = list(includes), plugin, cinc
        self.labels, self.nodes, self.props = labels or LABELS, nodes or NODES, props or PROPS
        self.refs, self.cats, self.dup = refs, cats, dup
        self.t = []
        # a small vocabulary makes repetitions and coincidences frequent
        few = lambda xs: rng.sample(xs, rng.choice([1, 2, 3])) if rng.random() < 0.4 else xs                     # noqa: E731
        self.strings, self.nums, self.bignums, self.bytes = few(STRINGS[:-1]), few(NUMS), few(BIGNUMS + NUMS), few(BYTES)
        if labels is None:
            self.labels = few(LABELS)
        if nodes is None:
            self.nodes = few(NODES)
        if props is None:
            self.props = few(PROPS)
        if rng.random() < 0.3:
            plain = [x for x in self.nodes if '@' not in x] or ['a']
            self.props = [rng.choice(plain) if rng.random() < 0.4 else x for x in self.props]

    def p(self, x):
        return self.r.random() < x

    def bad(self, cat='other'):
        return self.slip and (self.cats is None or cat in self.cats) and self.p(self.slip)

    def pick(self, xs):
        return self.r.choice(xs)

    def e(self, *toks):
        self.t.extend(toks)

    def semi(self):
        if self.bad('semi') and self.p(0.7):
            if self.p(0.2):
                self.e(self.pick(['!', ':', 'é', '|', '\\', '*', '%']))
            return
        self.e(';')

    # --- names
    def label(self):
        if self.bad('name'):
            return self.pick(['l-1', '#x', LONG32, 'a?', '.b', LONG31, 'x,y', '+l', '-', 'a.b', '_' * 32, '1' + LONG31, '0' * 40])
        return self.pick(self.labels)

    def nodename(self):
        if self.bad('name'):
            return self.pick([LONG32, '_n', '#n', 'n?', 'n@', 'n@#1', 'n@' + LONG32, LONG31, '+n', 'n@1', ',n', 'a' * 31 + '@1', 'n#@1', 'n@1?', LONG32 + '@#', '.n@1', '0' + LONG31, '_' + LONG32 + '@1',
                              'n@' + LONG31, '-n@2', '__symbols__@0', 'n#?'])
        return self.pick(self.nodes)

    def propname(self):
        if self.bad('name'):
            return self.pick([LONG32, 'p@1', LONG31, 'q@', '#' * 32, 'a' * 40, 'r@x@y', '?', 'a' * 31 + '@'])
        return self.pick(self.props)

    def ref(self):
        if self.bad('name'):
            return self.pick(['&', '&1', '&_y', '&' + LONG32, '&1' + LONG31, '&' + LONG31, '& a'] + ['&{' + p + '}' for p in BADPATHS])
        if self.p(0.6):
            return '&' + self.pick(self.labels)
        return '&{' + self.pick(PATHS) + '}'

    # --- values
    def optlabel(self, x=0.08):
        if self.p(x):
            self.e(self.label() + ':')

    def cell(self):
        k = self.r.random()
        if self.bad('num'):
            self.e(self.pick(BADNUMS))
        elif self.bad('value'):
            self.e(self.pick(['x', '"s"', ',', '[', '/bits/', '-', ';', '=', '(1', '1)', '&']))
        elif k < 0.55:
            self.e(self.pick(self.nums))
        elif k < 0.9:
            self.e(self.ref() if self.p(self.refs) else self.pick(self.nums))
        else:
            self.e('(')
            for _ in range(self.r.randint(0, 4)):
                self.e(self.pick(['1', '+', '0x2', 'A', '<', '|', '(1)', '&&', '?', ':', '*', '( 2 - (3))', 'B', '!', '/', '~', 'é']))
            self.e(')')

    def value(self):
        k = self.r.random()
        if self.p(0.06):
            self.e('/bits/', self.pick(['8', '16', '32', '64', '8', '16', '32', '0x10', '0', '300', '010', '0x40']) if not (self.bad('value') or self.bad('num'))
                   else self.pick(['x', '<', '"8"', '', '8x', '4294967296', '08', '18446744073709551616', '0x', '1 6', '3_2']))
        if self.bad('value'):
            self.e(self.pick(['1', 'x', '(', '>', ']', '/', '/foo/', ',', '/bits/', '', '{', '0x', '-', ':', '"', 'a:']))
        elif k < 0.3:
            self.e('"' + self.pick(self.strings if not self.bad('value') else STRINGS) + '"')
        elif k < 0.7:
            self.e('<')
            for _ in range(self.r.choice([0, 1, 1, 2, 3])):
                self.optlabel(0.05)
                self.cell()
            self.optlabel(0.05)
            if not (self.bad('value') and self.p(0.3)):
                self.e('>')
        elif k < 0.82:
            self.e(self.ref() if self.p(self.refs) else '"x"')
        else:
            self.e('[')
            for _ in range(self.r.choice([0, 1, 1, 2, 3])):
                self.optlabel(0.05)
                self.e(self.pick(BADBYTES) if self.bad('num') else self.pick(['"s"', '<', '-', '+1', '++']) if self.bad('value') else self.pick(self.bytes))
            self.optlabel(0.05)
            if not (self.bad('value') and self.p(0.3)):
                self.e(']')

    def values(self):
        for i in range(self.r.choice([1, 1, 1, 2, 3])):
            if i and not (self.bad('value') and self.p(0.3)):
                self.e(',')
            self.optlabel(0.06)
            self.value()
            self.optlabel(0.06)
        if self.bad('value') and self.p(0.2):
            self.e(',')

    # --- items
    def prop(self):
        if self.bad('struct') and self.p(0.4):
            self.e('/omit-if-no-ref/')
        if self.p(0.12):
            self.e(self.label() + ':')
            if self.bad() and self.p(0.3):
                self.e(self.label() + ':')
        self.e(self.propname())
        if self.p(0.75):
            self.e('=')
            self.values()
        self.semi()

    def node(self, d):
        if self.p(0.1):
            self.e('/omit-if-no-ref/')
        if self.p(0.4):
            self.e(self.label() + ':')
        self.e(self.nodename())
        if self.bad() and self.p(0.15):
            self.e(self.pick(['&a', '1', ':', ',', '"x"', '/']))
        self.payload(d - 1)

    def payload(self, d):
        if not (self.bad() and self.p(0.15)):
            self.e('{')
        np, nn = self.r.choice([0, 1, 1, 2, 3]), (self.r.choice([0, 0, 1, 1, 2]) if d > 0 else 0)
        kinds = ['p'] * np + ['n'] * nn
        if self.bad('struct'):
            self.r.shuffle(kinds)
        for k in kinds:
            if self.p(0.05):
                self.e('/delete-property/', self.propname() if not self.bad() else self.pick(['&a', '1', '"x"', ';', '/']))
                self.semi()
            if self.p(0.05):
                self.e('/delete-node/', self.nodename() if not self.bad() else self.pick(['&a', '1', '"x"', ';', '/']))
                self.semi()
            if k == 'p':
                self.prop()
            else:
                self.node(d)
            if self.bad() and self.p(0.2):
                self.e(self.pick(TOKENS))
        if self.bad() and self.p(0.15):
            self.e(self.pick(['x:', '/omit-if-no-ref/', '/omit-if-no-ref/ x:', 'y: z:']))
        if not (self.bad() and self.p(0.15)):
            self.e('}')
        self.semi()

    def primary(self):
        k = self.r.random()
        if self.includes and self.p(0.25):
            self.include()
        if k < 0.05:
            n = lambda: self.pick(BADBIG) if self.bad('num') else self.pick(['x', '"1"', ';', '&a', '(1)']) if self.bad() else self.pick(self.bignums)
            self.e('/memreserve/', n(), n())
            self.semi()
        elif k < 0.05 + self.plugin:
            self.e('/plugin/')
            self.semi()
        elif k < 0.05 + self.plugin + self.cinc:
            self.e('#include', '"x.h"' if not self.bad() else self.pick(['<x.h>', 'x', ';', '&a']))
        elif k < 0.6:
            self.e('/')
            self.payload(self.depth)
        elif k < 0.82:
            self.e(self.ref())
            self.payload(self.depth - 1)
        elif k < 0.9:
            self.e('/delete-node/', self.ref() if not self.bad() else self.pick(['a', '1', ';', '/']))
            self.semi()
        elif k < 0.96:
            self.e('/omit-if-no-ref/', self.ref() if not self.bad() else self.pick(['a', '1', ';', '/']))
            self.semi()
        else:
            if self.p(0.5):
                self.e('/dts-v1/')
                self.semi()
        if self.bad() and self.p(0.2):
            self.e(self.pick(TOKENS))

    def include(self):
        self.e('/include/', '"' + self.pick(self.includes) + '"' if not (self.bad() and self.p(0.2)) else self.pick(['x', ';', '"', '&a', '<x>']))
        if self.bad() and self.p(0.3):
            self.e(';')

    def file(self):
        if self.includes and self.p(0.15):
            self.include()
        if self.p(self.header):
            self.e('/dts-v1/')
            self.semi()
        for _ in range(self.r.randint(0 if self.bad() else 1, max(1, self.size))):
            self.primary()
        return self

    # --- layout
    def text(self, comments=0.06, compact=0.3):
        return layout(self.r, self.t, comments, compact)

    def weird(self):
        k = self.r.random()
        if k < 0.6:
            return self.pick(TOKENS)
        if k < 0.75:
            return self.pick(BADNUMS + BADBIG + BIGNUMS + BADBYTES)
        if k < 0.85:
            return '"' + self.pick(STRINGS) + '"'
        if k < 0.95:
            return self.pick(['&', '&{/', '/', '', '', '']) + unit_word(self.r) + self.pick(['', '', ':', '}', '/'])
        return self.pick(['/* ', '// ', '/*', '"', '&{']) + self.pick(STRINGS + BADPATHS)

    def mutate(self, k):
        t = self.t
        for _ in range(k):
            op = self.r.randrange(7)
            i = self.r.randrange(len(t) + 1)
            if op == 6 and t:
                # mostly keywords and numbers
                some = [j for j, x in enumerate(t) if x and ((x[0] == '/' and len(x) > 2) or x[0].isdigit())]
                i = self.r.choice(some) if some and self.p(0.7) else min(i, len(t) - 1)
                t[i] = twist(self.r, t[i])
            elif op == 0 and t:
                del t[min(i, len(t) - 1)]
            elif op == 1:
                t.insert(i, self.weird())
            elif op == 2 and t:
                t[min(i, len(t) - 1)] = self.weird()
            elif op == 3 and len(t) > 1:
                j = self.r.randrange(len(t))
                i = min(i, len(t) - 1)
                t[i], t[j] = t[j], t[i]
            elif op == 4 and t:
                i = min(i, len(t) - 1)
                t.insert(i, t[i])
            elif op == 5 and t:
                del t[i:]
        return self


def twist(r, x):
    """A token with a small slip."""
    if not x:
        return x
    i = r.randrange(len(x))
    op = r.randrange(8)
    if op == 0:
        return x[:i] + x[i].swapcase() + x[i + 1:]
    if op == 1:
        return x.swapcase()
    if op == 2:
        j = r.choice([1, len(x) - 1, i])
        return x[:j] + r.choice([' ', ' ', '\t', '\n']) + x[j:]
    if op == 3:
        return x[:i] + x[i + 1:]
    if op == 4:
        return x[:i] + x[i] + x[i:]
    if op == 5:
        return x.replace('-', '_') if '-' in x else x[:i] + r.choice('-_') + x[i:]
    if op == 6:
        return x[:i] + r.choice('sxe019-_. ') + x[i:]
    return x[:-1]


def exotic(r, t):
    """Characters of several bytes or code units in front of references."""
    out = []
    for c in t:
        if c == '&' and r.random() < 0.4:
            out.append('/*' + ''.join(r.choice(['é', '€', '𝄞', 'x', '日本', '\t']) for _ in range(r.choice([1, 2, 5, 20]))) + '*/')
        out.append(c)
    return ''.join(out)


def glue_ok(a, b):
    """May the two tokens be written without white space, so that they stay two tokens?"""
    if not a or not b:
        return True
    x, y = a[-1], b[0]
    word = lambda c: c.isalnum() or c in ',._+?#-@:'
    if word(x) and word(y):
        return False
    if x == '/' and (y in '/*' or y.isalpha()):
        return False
    if x == '&' or (x == '"') != (a[0] == '"'):
        return False
    if x == '*' and y == '/':
        return False
    return True


def layout(r, toks, comments=0.06, compact=0.3):
    out = []
    for i, t in enumerate(toks):
        if i and not (r.random() < compact and glue_ok(toks[i - 1], t)):
            out.append(r.choice(WSP))
        if r.random() < comments:
            out.append(' ' + r.choice(COMMENTS))
            if r.random() < 0.5:
                out.append(r.choice(WSP))
        out.append(t)
    if r.random() < 0.7:
        out.append('\n')
    return ''.join(out)


def bytemutate(r, s, k):
    s = list(s)
    for _ in range(k):
        op = r.randrange(4)
        i = r.randrange(len(s) + 1)
        if op == 0 and s:
            del s[min(i, len(s) - 1)]
        elif op == 1:
            s.insert(i, r.choice(list('/;{}<>[]()&"\\=,:@#-+.? \n\taz09_*') + ['é', '€', '𝄞', '\x00', '\x7f', '\x0b', '/*', '//', '&{']))
        elif op == 2 and s:
            s[min(i, len(s) - 1)] = r.choice(list('/;{}<>[]()&"\\=,:@#-+.? \naz09') + ['é', '𝄞'])
        elif op == 3 and s:
            i = min(i, len(s) - 1)
            j = min(len(s), i + r.randrange(1, 6))
            del s[i:j]
    return ''.join(s)


def utf16_positions(text):
    """All (line, column) positions of the text, in UTF-16 units."""
    l = c = 0
    out = [(0, 0)]
    for ch in text:
        if ch == '\n':
            l, c = l + 1, 0
        else:
            c += 2 if ord(ch) > 0xffff else 1
        out.append((l, c))
    return out


def cursor_positions(r, text, k):
    ps = utf16_positions(text)
    if len(ps) <= k:
        sel = ps
    else:
        # around the edges of words, mostly
        edges = [i for i in range(1, len(text)) if text[i - 1].isalnum() != text[i].isalnum()]
        cand = sorted({min(max(0, i + d), len(ps) - 1) for i in edges for d in (-1, 0, 1)})
        r.shuffle(cand)
        sel = [ps[i] for i in cand[:k * 3 // 4]]
        while len(sel) < k:
            sel.append(r.choice(ps))
    extra = [(ps[-1][0] + 1, 0), (ps[-1][0], ps[-1][1] + 3)]
    return [list(p) for p in sel + extra]


NAMES = ['/nowhere/d/doc.dts'] * 6 + ['/nowhere/d/doc.dtsi', '/nowhere/d/doc.dtso', '/nowhere/d/doc.overlay', '/nowhere/d/doc.txt', '/nowhere/d/doc',
                                       '/nowhere/d/.dts', '/nowhere/d/a.b.dtsi', '/nowhere/d/doc.DTS', '/nowhere/d/doc.']


def make_doc(r, i, profile='mix', nq=0):
    """One document for the document checks."""
    name = r.choice(NAMES)
    inc = ['missing.dtsi', '/nowhere/x.dtsi', '']
    k = r.random()
    small = dict(size=r.choice([1, 1, 2, 3]), depth=r.choice([1, 2, 2, 3]), includes=inc if r.random() < 0.15 else ())
    if profile == 'valid' or (profile == 'mix' and k < 0.3):
        d = Doc(r, slip=0.0, **small).file()
        t = d.text(comments=r.choice([0, 0.05, 0.3]), compact=r.choice([0, 0.3, 0.9]))
        cls = 'valid'
    elif profile == 'slips' or (profile == 'mix' and k < 0.75):
        d = Doc(r, slip=r.choice([0.02, 0.05, 0.1]), header=0.8, **small).file()
        t = d.text(comments=0.05, compact=0.3)
        cls = 'slips'
    elif profile == 'tokens' or (profile == 'mix' and k < 0.9):
        d = Doc(r, slip=0.0, header=0.8, **small).file()
        d.mutate(r.choice([1, 1, 2, 3]))
        t = d.text(comments=0.03, compact=0.3)
        cls = 'tokens'
    else:
        d = Doc(r, slip=r.choice([0.0, 0.03]), header=0.8, **small).file()
        t = bytemutate(r, d.text(comments=0.05), r.choice([1, 1, 2, 4]))
        cls = 'bytes'
    return {'id': 'g%d' % i, 'cls': cls, 'name': name, 'text': t, 'q': cursor_positions(r, t, nq) if nq else []}


# --- documents for one property ----------------------------------------------------------
WORDCHARS = 'aZ09bcn,._+-?#'
NONASCII = ['é', '€', '𝄞', 'ß', '日']


def word(r, extra=''):
    k = r.random()
    if k < 0.2:
        n = r.choice([29, 30, 31, 31, 32, 32, 33, 40])
        w = r.choice('abcxyz019_' + extra) + ''.join(r.choice('abcxyz019_') for _ in range(n - 1))
        if r.random() < 0.3:
            i = r.randrange(n)
            w = w[:i] + r.choice(WORDCHARS + extra) + w[i + 1:]
        return w
    n = r.choice([1, 1, 2, 2, 3, 4, 6])
    return ''.join(r.choice(WORDCHARS + extra if r.random() < 0.4 else 'abn_1') for _ in range(n))


def unit_word(r):
    k = r.random()
    if k < 0.4:
        return word(r)
    if k < 0.46:
        return '__symbols__'
    if k < 0.5:
        return '__symbols__@' + word(r)
    return word(r) + '@' + (word(r) if r.random() < 0.85 else '') + ('@' + word(r) if r.random() < 0.08 else '')


class Names(Doc):
    def label(self):
        return word(self.r) if self.p(0.5) else self.pick(self.labels)

    def nodename(self):
        return unit_word(self.r) if self.p(0.6) else self.pick(self.nodes)

    def propname(self):
        return (unit_word(self.r) if self.p(0.2) else word(self.r)) if self.p(0.5) else self.pick(self.props)

    def ref(self):
        if self.p(0.4):
            return '&' + (word(self.r).lstrip(',.+-?#') if self.p(0.9) else '')
        els = []
        for _ in range(self.r.choice([0, 1, 1, 2, 3])):
            w = unit_word(self.r) if self.p(0.6) else self.pick(self.nodes)
            if self.p(0.25):
                i = self.r.randrange(len(w) + 1)
                w = w[:i] + self.pick(NONASCII + [' ', '\n', '!', '?', '#', '"', '@']) + w[i:]
            els.append(w)
        pre = '' if self.p(0.1) else '/'
        return '&{' + pre + '/'.join(els) + ('/' if self.p(0.1) else '') + '}'


class Refs(Doc):
    """References over few labels and paths, so that most of them could be resolved."""

    def label(self):
        return self.pick(['a', 'b', 'c', 'd'])

    def nodename(self):
        return self.pick(self.FEW if not self.p(0.08) else self.RARE)

    FEW = ['a', 'b', 'c', 'a@1']
    RARE = ['a@', 'a@', 'b@', 'a@#', 'A', 'c@1,0', 'a@1@2', 'a.b', '__symbols__', 'c-', 'b@01', 'aa']

    def ref(self):
        if self.p(0.55):
            return '&' + self.pick(['a', 'b', 'c', 'd'])
        return '&{/' + '/'.join(self.nodename() for _ in range(self.r.choice([0, 1, 1, 1, 2, 2, 3]))) + '}'


class Struct(Doc):
    """Structural rules: order of properties and nodes, placement of directives and headers."""

    def propname(self):
        return 'compatible' if self.p(0.3) else self.pick(self.props)

    def file(self):
        kinds = []
        n = self.r.choice([1, 2, 2, 3, 4])
        for _ in range(n):
            kinds.append(self.r.random())
        heads = {0: 1, 1: 0, 2: 2}.get(self.r.randrange(8), 1)
        slots = [0 if self.p(0.5) else self.r.randrange(n + 1) for _ in range(heads)]
        for i in range(n + 1):
            for s in slots:
                if s == i:
                    self.e('/dts-v1/', ';')
            if i < n:
                self.primary()
        return self


class Literals(Doc):
    def string(self):
        out = []
        for _ in range(self.r.choice([0, 1, 2, 3, 5])):
            out.append(self.pick(['a', 'b', ' ', '\\"', '\\\\', '\\n', '\\x', '\\é', 'é', '€', '𝄞', '\n', '/*', '//', ';', '}', "'", '\\0', '\t', '&', '1']))
        return '"' + ''.join(out) + '"'

    def number(self, bits):
        k = self.r.random()
        top = 1 << bits
        v = self.pick([0, 1, 7, 8, 9, 10, 255, 65535, 65536, top - 1, top, top + 1, top // 2, top * 10 - 1, (top - 1) // 10, self.r.randrange(top), self.r.randrange(top * 4),
                       self.r.randrange(1 << self.r.randrange(1, bits + 3))])
        if k < 0.35:
            return '0x' + '0' * self.pick([0, 0, 0, 1, 7]) + self.pick(['%x', '%X']) % v
        if k < 0.5:
            return '0' * self.pick([1, 1, 2, 5]) + '%o' % v
        if k < 0.8:
            return '%d' % v
        if k < 0.9:
            return self.pick(NUMS + BADNUMS + BIGNUMS + BADBIG)
        s = '%d' % v
        i = self.r.randrange(len(s) + 1)
        return (s[:i] + self.pick(list('abfgxXz89uLR')) + s[i:]) if i else '0' + self.pick(list('xXbog')) + s

    def cell(self):
        if self.p(0.85):
            self.e(self.number(32))
        else:
            super().cell()

    def value(self):
        k = self.r.random()
        if k < 0.3:
            self.e(self.string())
        elif k < 0.65:
            self.e('<')
            for _ in range(self.r.choice([1, 1, 2, 3])):
                self.cell()
            self.e('>')
        elif k < 0.9:
            self.e('[')
            for _ in range(self.r.choice([1, 1, 2, 3])):
                w = ''.join(self.pick('0123456789abcdefABCDEF') for _ in range(self.pick([1, 2, 2, 2, 4, 4, 5, 8])))
                if self.p(0.15):
                    i = self.r.randrange(len(w))
                    w = w[:i] + self.pick('gGzx_#+-,.?') + w[i + 1:]
                self.e(w)
            self.e(']')
        else:
            super().value()

    def primary(self):
        if self.p(0.3):
            self.e('/memreserve/', self.number(64), self.number(64))
            self.semi()
        else:
            super().primary()


def drop_semis(r, toks):
    """Leaves out some semicolons, or mistypes them."""
    idx = [i for i, t in enumerate(toks) if t == ';']
    if not idx:
        return list(toks)
    sel = set(r.sample(idx, min(len(idx), r.choice([1, 1, 1, 2, 3]))))
    out = []
    for i, t in enumerate(toks):
        if i not in sel:
            out.append(t)
        elif r.random() < 0.2:
            out.append(r.choice(['!', ':', '|', 'é', '%', '*', '-', '+', '.']))
    return out


def tree_size(r):
    return dict(size=r.choice([1, 1, 2, 3]), depth=r.choice([1, 2, 2, 3]))


DTS = '/nowhere/d/doc.dts'


def profile_doc(prop, r, i, nq):
    """One document (or a group of documents) for the check of one property."""
    sz = tree_size(r)
    k = r.random()
    name = DTS
    if prop == 'C04':
        cls = r.choice([Doc, Doc, Names, Refs])
        d = cls(r, slip=0.0, **sz).file()
        t = d.text(comments=r.choice([0, 0.05, 0.3]), compact=r.choice([0, 0.3, 0.9]))
    elif prop == 'C03':
        if k < 0.5:
            d = Doc(r, slip=r.choice([0.02, 0.05]), header=1.0, **sz).file()
            t = d.text(comments=0.05)
        elif k < 0.8:
            d = Doc(r, header=1.0, **sz).file()
            if k < 0.6:
                d.e('/plugin/', ';') if d.p(0.3) else d.e('/', '{', '/delete-property/', 'p', ';', '/delete-node/', 'a', ';', '/omit-if-no-ref/', 'b', '{', '}', ';', '}', ';')
            t = d.mutate(r.choice([1, 1, 2])).text(comments=0.03)
        else:
            t = bytemutate(r, Doc(r, header=1.0, **sz).file().text(), r.choice([1, 1, 2]))
    elif prop == 'C06':
        d = Doc(r, slip=0.0, **sz).file()
        t = layout(r, drop_semis(r, d.t), r.choice([0, 0.05, 0.2]), r.choice([0, 0.3, 0.9]))
    elif prop == 'C07':
        d = Names(r, slip=r.choice([0, 0.1]), cats={'name'}, **sz).file()
        t = d.text(comments=0.03)
    elif prop == 'C08':
        name = r.choice(NAMES)
        d = Struct(r, slip=r.choice([0, 0.2, 0.4]), cats={'struct'}, header=0.5, includes=['missing.dtsi', ''] if r.random() < 0.3 else (), plugin=0.1, cinc=0.05, **sz).file()
        t = d.text(comments=0.03)
        if r.random() < 0.1:
            t = t.replace('>', '', 1) if r.random() < 0.5 else t.replace(')', '', 1)
        if r.random() < 0.2 and '"' in t:
            t = t.replace('dtsi"', 'dtsi" ;').replace('x.h"', 'x.h" ;')
    elif prop == 'C09':
        name = r.choice(NAMES) if r.random() < 0.3 else DTS
        d = Refs(r, slip=0.0, props=['p', 'q', 'compatible'], plugin=r.choice([0, 0, 0, 0.1]), size=r.choice([2, 3, 4, 5]), depth=r.choice([2, 3])).file()
        t = d.text(comments=0.03)
    elif prop == 'C10':
        d = r.choice([Refs, Refs, Doc])(r, slip=0.0, size=r.choice([2, 3, 4]), depth=2, includes=['missing.dtsi', 'x'] if r.random() < 0.3 else (), plugin=0.02).file()
        if k < 0.25:
            d.t = drop_semis(r, d.t)
        t = d.text(comments=0.08)
        if r.random() < 0.1:
            t = bytemutate(r, t, 1)
        if r.random() < 0.2:
            t = exotic(r, t)
    elif prop in ('C16', 'C18'):
        d = r.choice([Refs, Refs, Doc])(r, slip=0.0, size=r.choice([2, 3, 4]), depth=2,
                                        includes=['inc.dtsi', 'missing.dtsi', './inc.dtsi', 'dd', ''] if r.random() < 0.6 else (), plugin=0.02).file()
        t = d.text(comments=0.08)
        if r.random() < (0.3 if prop == 'C16' else 0.1):
            t = bytemutate(r, t, 1)
        if r.random() < 0.3:
            t = exotic(r, t)
    elif prop == 'C21':
        d = Literals(r, slip=0.0, **sz).file()
        t = d.text(comments=0.03)
    elif prop == 'C23':
        if k < 0.3:
            d = Doc(r, slip=0.0, **sz).file()
            t = d.text(comments=0.1)
            t = t[:r.randrange(len(t) + 1)]
        elif k < 0.7:
            t = Doc(r, **sz).file().mutate(1).text(comments=0.1)
        else:
            t = Doc(r, slip=0.03, cats={'semi', 'other', 'value'}, **sz).file().text(comments=0.1)
    else:
        d = make_doc(r, i, 'mix', nq)
        return d
    t = enlarge(r, t)
    return {'id': 'g%d' % i, 'name': name, 'text': t, 'q': cursor_positions(r, t, nq) if nq else []}


def enlarge(r, t):
    """Some documents are long: lines and columns with many digits, many statements."""
    k = r.random()
    if k < 0.02:
        return '\n' * r.choice([8, 9, 98, 99, 127, 128, 254, 255, 256, 300]) + t
    if k < 0.04:
        return r.choice([' ', '\t', '/**/', '/*é*/', '/*𝄞*/']) * r.choice([20, 63, 64, 127, 128, 255, 256]) + t
    if k < 0.045:
        return t + '\n' + '\n'.join('/ { n%d { p%d = <%d>; }; };' % (x, x, x) for x in range(r.choice([12, 40])))
    if k < 0.05:
        return t + ' / { ' + ' '.join('n%d { };' % x for x in range(r.choice([30, 70]))) + ' };'
    return t


def layout_group(r, i, count=3):
    """The same tokens in different layouts."""
    k = r.random()
    d = Doc(r, slip=r.choice([0, 0, 0.03]), **tree_size(r)).file()
    toks = d.t
    if k < 0.15:
        toks = drop_semis(r, toks)
    elif k < 0.3:
        toks = d.mutate(1).t
    name = r.choice(NAMES)
    out = []
    for j in range(count):
        t = layout(r, toks, comments=[0, 0.1, 0.4][j % 3], compact=[0.9, 0.3, 0.0][j % 3])
        out.append({'id': 'g%d.%d' % (i, j), 'grp': i, 'name': name, 'text': t, 'q': []})
    return out


def docs(prop, seed, n, nq=0):
    import random
    r = random.Random('%s/%s' % (prop, seed))
    out = []
    i = 0
    while len(out) < n:
        if prop == 'C22':
            out.extend(layout_group(r, i))
        else:
            out.append(profile_doc(prop, r, i, nq))
        i += 1
    return out


def nested(r, n, inner='', semis=True):
    """Nodes inside each other, with labels, properties and references on the way."""
    labels = ['l%d' % x for x in range(n)]
    out, end = [], []
    for x in range(n):
        head = r.choice(['', 'l%d: ' % x, 'l%d: ' % x])
        body = r.choice(['', 'p;', 'p = <%d>;' % x, 'q = &%s;' % r.choice(labels), 'r = <&%s 1>;' % r.choice(labels), 's = "%d";' % x])
        out.append('%sn%d {%s%s%s' % (head, x, r.choice([' ', '\n', '\n\t']), body, r.choice([' ', '\n'])))
        end.append('}' + (';' if semis or r.random() < 0.7 else '') + r.choice([' ', '\n']))
    path = '/' + '/'.join('n%d' % x for x in range(r.randrange(1, n + 1)))
    return '/dts-v1/;\n/ { ' + ''.join(out) + inner + ' ' + ''.join(end) + '};\n&{%s} { z; };\n/ { q = <&{%s}>, &l0, &l%d; };\n' % (path, path, n - 1)


def many(r, n, what):
    """Many of the same."""
    k = r.choice(['prop', 'node', 'root', 'cells', 'values', 'bytes', 'labels', 'ref', 'reserve', 'strings'])
    one = {'name': ['n%d { a?b@# { }; };', 'n%d { p@1 = <1>; };', 'n%d { l-x: m { }; };', 'a%d__________________________________ { };', '_n%d { };'],
           'semi': ['n%d { }', 'n%d { p = <1> };', 'n%d { p };', 'n%d { p = "s" q; };'],
           'refs': ['n%d { p = <&x>; };', 'n%d { p = &{/x}; };', 'n%d { p = <&n%d &x>; };'],
           'struct': ['n%d { m { }; p; };', 'n%d { /omit-if-no-ref/ p; };', 'n%d { compatible = <1>; };', 'n%d { m { }; p = <1>; };'],
           'lit': ['n%d { p = <0x>; };', 'n%d { p = <08>; };', 'n%d { p = [0]; };', 'n%d { p = [gg]; };', 'n%d { p = <4294967296 1>; };'],
           'value': ['n%d { p = <x>; };', 'n%d { p = <1 , 2>; };', 'n%d { p = /bits/ x <1>; };'],
           'header': None, 'none': None}[what]
    if one:
        sep = '\n' if n > 130 else r.choice(['\n', ' '])
        forms = [r.choice(one)] if r.random() < 0.5 else one
        items = []
        for x in range(n):
            f = r.choice(forms)
            items.append(f % ((x,) * f.count('%d')))
        return '/dts-v1/;\n/ { ' + sep.join(items) + ' };\n'
    if what == 'header':
        return r.choice(['', '/ { };\n']) + '/dts-v1/;\n' * n
    if k == 'prop':
        return '/dts-v1/; / { ' + ' '.join('p%d = <%d>;' % (x % r.choice([1, 7, n]), x) for x in range(n)) + ' };'
    if k == 'node':
        return '/dts-v1/; / {\n' + '\n'.join('l%d: n@%x { p; };' % (x, x) for x in range(n)) + ' };\n/ { q = <' + ' '.join('&l%d' % x for x in range(n + 1)) + '>; };'
    if k == 'root':
        return '/dts-v1/;\n' + '\n'.join('/ { n%d { p%d = <%d>; }; };' % (x, x, x) for x in range(n))
    if k == 'cells':
        return '/dts-v1/; / { p = <' + ' '.join(str(x) for x in range(n)) + '>; };'
    if k == 'values':
        return '/dts-v1/; / { p = ' + ', '.join(r.choice(['"%d"', '<%d>', '<0x%d>', '[%02d]']) % (x % 90) for x in range(n)) + '; };'
    if k == 'bytes':
        return '/dts-v1/; / { p = [' + ''.join('%02x' % (x % 256) for x in range(n)) + r.choice(['', '0', ' f', ' ab']) + ']; };'
    if k == 'labels':
        return '/dts-v1/; / { p = <' + ' '.join('a%d: %d' % (x, x) for x in range(n)) + '>; };'
    if k == 'ref':
        return '/dts-v1/; / { x: n { }; };\n' + '\n'.join('&x { m%d { }; };' % x for x in range(n)) + '\n/ { p = ' + ', '.join('&{/n/m%d}' % x for x in range(n + 1)) + '; };'
    if k == 'strings':
        return '/dts-v1/; / { p = ' + ', '.join('"s%d"' % x for x in range(n)) + '; };'
    return '/dts-v1/;\n' + '\n'.join('/memreserve/ 0x%x 0x%x;' % (x, x + 1) for x in range(n)) + '\n/ { };'


def long_tokens(r, n):
    """One long token in a small document."""
    k = r.choice(['string', 'escapes', 'comment', 'line', 'name', 'label', 'path', 'paths', 'number', 'zeros', 'bytes', 'parens', 'space', 'lines', 'directive', 'text'])
    if k in ('parens', 'escapes'):
        n = min(n, 1200)
    pre, post = '/dts-v1/; / { a; ', ' z: b { }; }; / { q = &z; };'
    body = {'string': 'p = "' + r.choice(['x', 'é', '\\\\', ' ', 'xy\n']) * n + '";', 'escapes': 'p = "' + '\\"\\\\\\n' * (n // 3) + '";',
            'comment': '/*' + r.choice(['x', '*', ' ', '\n', '/', 'é']) * n + '*/ p;', 'line': '//' + r.choice(['x', '/', '\\']) * n + '\np;',
            'name': 'n' * n + r.choice([';', ' { };', ' = <1>;', '@1 { };']), 'label': 'l' * n + ': n { };', 'path': 'p = &{/' + 'n' * n + '};',
            'paths': 'p = &{' + '/n@1' * n + '};', 'number': 'p = <' + '1' * n + '>;', 'zeros': 'p = <0x' + '0' * n + '1>;', 'bytes': 'p = [' + 'a5' * n + '];',
            'parens': 'p = <' + '(' * n + '1' + ')' * n + '>;', 'space': ' ' * n + 'p;', 'lines': '\n' * n + 'p;', 'directive': '/' + 'd' * n + '/;', 'text': '" ' * n + ';'}[k]
    return pre + body + post


DEEP_TREES = {'C02', 'C05', 'C06', 'C21', 'C22', 'C16', 'C17', 'C18', 'C15', 'ALL'}
KINDS_OF = {'C03': ['semi', 'value', 'lit', 'name'], 'C04': ['none'], 'C05': ['none'], 'C06': ['semi'], 'C07': ['name'], 'C08': ['struct', 'header'], 'C09': ['refs'], 'C10': ['refs', 'none'],
            'C21': ['lit', 'none'], 'C23': ['value', 'semi'], 'C18': ['none'], 'C17': ['none'], 'C16': ['none', 'semi']}


def big(prop, seed, count=40, nq=0):
    """Documents beyond every small limit: deep, long, with many parts and many mistakes."""
    import random
    r = random.Random('big/%s/%s' % (prop, seed))
    kinds = KINDS_OF.get(prop, ['name', 'semi', 'refs', 'struct', 'lit', 'value', 'header', 'none'])
    out = []
    for i in range(count):
        k = i % 4
        if k == 0:
            # the trace format allows no deeper trees
            n = r.choice([9, 17, 33, 65, 70, 101, 110] + ([] if prop in DEEP_TREES else [129, 200]))
            t = nested(r, n, r.choice(['', '', 'bad bad', 'p = <08>;', '_x { };', 'm { }; p;', 'p = &nope;']) if prop not in ('C04', 'C05', 'C17') else '', semis=prop not in ('C06', 'C23', 'C03') or r.random() < 0.5)
        elif k in (1, 2):
            t = many(r, r.choice([11, 17, 33, 51, 65, 101, 129, 257, 300]), r.choice(kinds) if k == 1 else r.choice(kinds + ['none']))
        else:
            t = long_tokens(r, r.choice([32, 33, 64, 65, 100, 128, 255, 256, 257, 1000, 1024, 4097]))
        if prop == 'C03' and k == 3:
            t = t.replace(' z:', ' ; z:')
        out.append({'id': 'b%d' % i, 'name': DTS, 'text': t, 'q': cursor_positions(r, t, nq) if nq else []})
    return out


RUN_SIZES = [127, 128, 255, 256, 1023, 4095, 4096, 32767, 32768, 65534, 65535, 65536, 65537, 70000, 131072, 200000]


def giant(prop, seed, count=16, nq=0):
    """Documents with long comments: many columns or lines.  What is long is abbreviated in the trace."""
    import random
    import re
    import common
    r = random.Random('giant/%s/%s' % (prop, seed))
    out = []
    while len(out) < count:
        t = profile_doc(prop if prop != 'C22' else 'C02', r, 0, 0)['text']
        rest = re.sub(r'/[a-z0-9-]+/', '', t)
        rest = re.sub(r'&\{[^}"]*\}', '', rest)
        rest = re.sub(r'"[^"\\]*"', '', rest)
        if '"' in rest or '&{' in rest or '//' in t or '/*' in t or '\ue000' in t or '\ue001' in t or re.search(r'/[^ \n\t{]', rest):
            continue
        at = [m.start() for m in re.finditer(r'[ ;{<]', t) if not any(x.start() < m.start() + 1 < x.end() for x in re.finditer(r'"[^"]*"|&\{[^}]*\}|/[a-z0-9-]+/', t))]
        if not at:
            continue
        for i in sorted(r.sample(at, min(len(at), r.choice([1, 1, 2, 3]))), reverse=True):
            k = r.choice(RUN_SIZES)
            mark = r.choice(['/*\ue000%d\ue000*/', '/*\ue001%d\ue001*/', '/*\n\ue000%d\ue000*/', '//\ue000%d\ue000\n']) % k
            t = t[:i + 1] + mark + t[i + 1:]
        full = common.expand(t)
        out.append({'id': 'giant%d' % len(out), 'name': DTS, 'text': full, 'marked': t, 'abbr': common.abbreviated(t), 'q': cursor_positions(r, full, nq) if nq else []})
    return out


ODD = ['\ufeff', '\ufeff', '\x0b', '\x00', '\x7f', '\x85', '\xa0', '\u200b', '\u2028', '\u3000', '\u2060', '\x1a', '\x1b', '\u0301', '\x08', '\U000e0001', '\ufffd', '\x0c', '\r', '$$', '\\\n']


def filler(r, n, plain=False):
    """About n bytes: wherever they are cut, it is likely to be inside of a character."""
    k = 'x' if plain else r.choice(['é', '€', '𝄞', '𝄞', 'x', 'é€𝄞', '€ '])
    return 'x' * r.randrange(4) + k * max(1, n // len(k.encode()))


def widen(r, t):
    """Makes one part of the text longer: a string, comment, path, name or white space."""
    import re
    n = max(1, r.choice([r.randrange(20, 130), r.randrange(130, 300), r.randrange(300, 1100), r.choice([31, 32, 64, 80, 100, 120, 128, 256, 512, 1000, 1024]) + r.randrange(-4, 5)]))
    k = r.choice(['string', 'string', 'comment', 'line', 'word', 'word', 'path', 'space', 'bytes', 'address'])
    if k == 'word':
        ws = re.findall(r'&([a-z]\w*)', t) + re.findall(r'([a-z][\w,.+-]*)(?:@\w*)?\s*[{=;:]', t)
        if ws:
            w = r.choice(ws)
            long = (w + '_' + 'lmnopqrs' * n)[:n]
            return re.sub(r'(?<![\w,./#?+-])' + re.escape(w) + r'(?![\w,.#?+-])', long, re.sub(r'(?<=/)' + re.escape(w) + r'(?=[/}])', long, t))
    pats = {'string': r'"[^"\\]*(?=")', 'comment': r'/\*[^*]*(?=\*/)', 'line': r'//[^\n]*(?=\n)', 'path': r'&\{/[^}]*(?=\})', 'space': r'[ \n\t]+', 'bytes': r'\[ *', 'address': r'@\w*'}
    at = [m.end() for m in re.finditer(pats.get(k, ' '), t)]
    if not at:
        k, at = 'space', [m.end() for m in re.finditer(r'[ ;{}]', t)]
    if not at:
        return t
    i = r.choice(at)
    if k == 'bytes':
        new = 'a5' * (n // 2) + ' '
    elif k in ('space', 'word'):
        new = r.choice([' ' * n, '\t' * n, '/*' + filler(r, n) + '*/', '\n' * n])
    elif k == 'path':
        new = r.choice(['/a' * (n // 2), filler(r, n), '/' + 'n' * n + '@1'])
    else:
        new = filler(r, n, k == 'address')
    return t[:i] + new + t[i:]


def wide(prop, seed, count, nq=0):
    """Documents with one or two long parts."""
    import random
    r = random.Random('wide/%s/%s' % (prop, seed))
    out = []
    for i in range(count):
        d = profile_doc('C04' if prop == 'C01' and i % 2 else prop if prop != 'C22' else 'C02', r, 0, 0)
        t = d['text']
        for _ in range(r.choice([1, 1, 2])):
            t = widen(r, t)
        out.append({'id': 'wide%d' % i, 'name': d['name'], 'text': t, 'q': cursor_positions(r, t, nq) if nq else []})
    return out


def odd(prop, seed, count):
    """A character that is invisible or nothing but white space elsewhere."""
    import random
    r = random.Random('odd/%s/%s' % (prop, seed))
    out = []
    for i in range(count):
        t = profile_doc(prop if prop != 'C22' else 'C02', r, 0, 0)['text']
        c = r.choice(ODD) * r.choice([1, 1, 2])
        k = r.choice([0, 0, len(t), r.randrange(len(t) + 1), r.randrange(len(t) + 1)])
        out.append({'id': 'odd%d' % i, 'name': r.choice(NAMES), 'text': t[:k] + c + t[k:], 'q': []})
    return out
