"""P11: constants denote exactly the written value, wherever they stand."""
from vf.batch import *
from vf.gen import *
from vf.lang import ESC, quote

ESCAPES = [('*0', 0), ('*e', 0), ('*(', 123), ('*)', 125), ('*t', 9), ('*n', 10), ('*r', 13), ('**', 42), ("*'", 39), ('*"', 34)]
RAW = [b for b in range(256) if b != 42]     # may stand for themselves (except the quote), line ends and NUL included


def numtext(rng, v):
    """A spelling of 0 <= v < 2**64."""
    if rng.random() < .45:
        return '0' * rng.choice([1, 1, 1, 2, 5, 30, 100]) + oct(v)[2:] if v else '0' * rng.choice([1, 1, 2, 30])
    return str(v) if v else '0'


def anynum(rng):
    r = rng.random()
    if r < .2:
        return rng.randrange(0, 300)
    if r < .5:
        p = rng.choice([1 << rng.randrange(64), 10 ** rng.randrange(20), 8 ** rng.randrange(22), 1 << 63])
        return max(0, min((1 << 64) - 1, p + rng.randint(-2, 2)))
    if r < .9:
        return rng.getrandbits(rng.randint(1, 64))
    return (1 << 64) - 1 - rng.randrange(3)


def ch(rng, b, q):
    """One character of a constant in quotes q."""
    forms = [t for t, v in ESCAPES if v == b]
    if b in RAW and b != ord(q):
        forms += [chr(b)] * (1 if forms else 1)
    return rng.choice(forms)


def anybyte(rng, ascii=False):
    r = rng.random()
    if r < .5:
        return rng.randrange(32, 127)
    if r < .75:
        return rng.choice([v for _, v in ESCAPES])
    return rng.choice(RAW if not ascii else list(range(1, 9)) + list(range(14, 32)))


def chrconst(rng, n=None, bs=None):
    bs = bs if bs is not None else bytes(anybyte(rng) for _ in range(n or heavy(rng, 1, 4, 8)))
    return "'" + ''.join(ch(rng, b, "'") for b in bs) + "'", chr_value(bs)


def strconst(rng, n=None):
    r = rng.random()
    if n is None:
        n = heavy(rng, 0, 12, 3000)
    if r < .85:
        bs = bytes(anybyte(rng) for _ in range(n))
    else:
        bs = ''.join(rng.choice('aé漢😀ß€') for _ in range(n)).encode()    # UTF-8 text is just bytes
    t = ''.join(ch(rng, b, '"') for b in bs)
    return '"' + t + '"', bs


def const(rng):
    if rng.random() < .6:
        v = anynum(rng)
        return numtext(rng, v), wrap(v)
    return chrconst(rng)


def evs_trace(tag, bs):
    d = bs + b'\0'
    return [tuple([tag, o] + list(d[o:o + 32])) for o in range(0, len(d), 32)]


class Src:
    def __init__(self, rng):
        self.rng = rng
        self.top, self.body, self.trace = [], [], []
        self.n = 0

    def fn(self, lines, trace):
        """A function called by main."""
        name = 'f%d' % self.n
        self.n += 1
        self.top.append('%s(){%s}' % (name, '\n'.join(lines)))
        self.body.append('%s();' % name)
        self.trace += trace

    def case(self, note, flags=(('-O0',), ('-O2',))):
        self.rng.shuffle(self.top)
        t = '\n'.join(self.top) + '\nmain(){%s return(7);}\n' % '\n'.join(self.body)
        return Case(t, (self.trace, 7), flags=flags, note=note, cpu=30)


def k_expr(rng, i):
    """Constants as operands."""
    s = Src(rng)
    for _ in range(6):
        lines, tr = [], []
        for k in range(25):
            cs = [const(rng) for _ in range(rng.randint(1, 6))]
            r = rng.random()
            if r < .7:
                lines.append('ev(%d,%d,%s);' % (len(cs) + 1, k, ','.join(t for t, _ in cs)))
                tr.append(tuple([k] + [v for _, v in cs]))
            elif r < .8:
                lines.append('ev(2,%d,-%s);' % (k, cs[0][0]))
                tr.append((k, wrap(-cs[0][1])))
            elif r < .9:
                lines.append('ev(2,%d,%s);' % (k, '+'.join(t for t, _ in cs)))
                tr.append((k, wrap(sum(v for _, v in cs))))
            else:
                lines.append('ev(3,%d,%s==%s,%s&%s);' % (k, cs[0][0], cs[-1][0], cs[0][0], cs[-1][0]))
                tr.append((k, int(cs[0][1] == cs[-1][1]), wrap(cs[0][1] & cs[-1][1])))
        s.fn(lines, tr)
    return s.case('expressions')


def k_bytes(rng, i):
    """Every byte, raw and escaped, alone and in company, in characters and strings."""
    s = Src(rng)
    singles = [("'%s'" % t, v) for t, v in ESCAPES] + [("'%s'" % chr(b), b) for b in RAW if b != 39]
    pad = [chrconst(rng, bs=bytes([rng.choice([65, 0, 255]) for _ in range(k)] + [b] + [66] * j))
           for b in rng.sample(range(256), 40) for k, j in [rng.choice([(0, 7), (7, 0), (3, 3), (1, 1), (0, 1), (1, 0)])]
           if b in RAW or b in [v for _, v in ESCAPES]]
    items = singles + pad
    for a in range(0, len(items), 30):
        part = items[a:a + 30]
        s.fn(['ev(%d,%d,%s);' % (len(part) + 1, a, ','.join(t for t, _ in part))],
             [tuple([a] + [v for _, v in part])])
    strs = [('"%s"' % t, bytes([v])) for t, v in ESCAPES] + [('"%s"' % chr(b), bytes([b])) for b in RAW if b != 34]
    lines, tr = [], []
    for k, (t, b) in enumerate(strs):
        lines.append('evs(%d,%s,2);' % (k, t))
        tr += evs_trace(k, b)
    s.fn(lines, tr)
    # all at once, in one string
    t = ''.join(x[1:-1] for x, _ in strs)
    bs = b''.join(b for _, b in strs)
    s.fn(['evs(1,"%s",%d);' % (t, len(bs) + 1)], evs_trace(1, bs))
    return s.case('every byte')


def k_strings(rng, i):
    s = Src(rng)
    for _ in range(5):
        lines, tr = ['auto p;'], []
        for k in range(heavy(rng, 1, 10, 60)):
            t, bs = strconst(rng, rng.choice([20000, 65536, 100001]) if rng.random() < .01 else None)
            r = rng.random()
            if r < .5:
                lines.append('evs(%d,%s,%d);' % (k, t, len(bs) + 1))
            elif r < .8:
                lines.append('p=%s;evs(%d,p,%d);' % (t, k, len(bs) + 1))
            else:
                lines.append('evs(%d,1?%s:0,%d);' % (k, t, len(bs) + 1))
            tr += evs_trace(k, bs)
        s.fn(lines, tr)
    return s.case('strings')


def k_ival(rng, i):
    """The same constants as initial values."""
    s = Src(rng)
    for g in range(heavy(rng, 3, 8, 40)):
        name = 'g%d' % g
        cnt = heavy(rng, 1, 4, 60)
        vals = []
        for _ in range(cnt):
            r = rng.random()
            if r < .25:
                t, b = strconst(rng)
                vals.append((t, b))
            elif r < .45:
                v = anynum(rng)
                vals.append(('-' + rng.choice(['', ' ', '/**/']) + numtext(rng, v), wrap(-v)))
            else:
                vals.append(const(rng))
        vec = rng.random() < .5
        s.top.append('%s%s %s;' % (name, rng.choice(['[]', '[%d]' % cnt, '[1]', '[%d]' % (cnt + 3)]) if vec else '',
                                   rng.choice([',', ' , ', ',\n']).join(t for t, _ in vals)))
        lines, tr = ['extrn %s;' % name], []
        for k, (t, v) in enumerate(vals):
            el = '%s[%d]' % (name, k) if vec else '(&%s)[%d]' % (name, k)
            if isinstance(v, bytes):
                lines.append('evs(%d,%s,%d);' % (k, el, len(v) + 1))
                tr += evs_trace(k, v)
            else:
                lines.append('ev(2,%d,%s);' % (k, el))
                tr.append((k, v))
        s.fn(lines, tr)
    return s.case('initial values')


def k_case(rng, i):
    """The same constants as case labels, selected by other spellings."""
    s = Src(rng)
    for f in range(4):
        labels = {}
        for _ in range(heavy(rng, 1, 12, 80)):
            if rng.random() < .3 and labels:
                v0 = rng.choice(list(labels))
                v = wrap(v0 + rng.choice([1, -1, 256, 1 << 32, 1 << 63, 8, 64]))
                t = numtext(rng, v & M64)
            else:
                t, v = const(rng)
            labels.setdefault(v, t)
        items = list(labels.items())
        rng.shuffle(items)
        name = 'sw%d' % f
        s.top.append('%s(x){switch(x){%s}return(-1);}' % (name, ''.join(
            'case %s:return(%d);' % (t, k) for k, (v, t) in enumerate(items))))
        lines, tr = [], []
        for k, (v, t) in enumerate(items):
            r = rng.random()
            if r < .4:
                e = numtext(rng, v & M64)
            elif r < .6:
                e = t
            elif r < .8:
                e = '-' + numtext(rng, -v & M64)
            else:
                b = (v & M64).to_bytes(8, 'big')
                b = b.lstrip(b'\0') if rng.random() < .5 and v else b
                e = chrconst(rng, bs=b)[0] if all(x in RAW or x in [y for _, y in ESCAPES] for x in b) else t
            lines.append('ev(2,%d,%s(%s));' % (k, name, e))
            tr.append((k, k))
        for k in range(10):
            v = wrap(rng.choice(items)[0] + rng.choice([1, -1, 1 << 32, 1 << 63, 255]))
            lines.append('ev(2,%d,%s(%s));' % (k, name, numtext(rng, v & M64)))
            tr.append((k, items.index((v, labels[v])) if v in labels else -1))
        s.fn(lines, tr)
    return s.case('case labels')


def sizetext(rng, n, chars=False):
    if chars or rng.random() < .25 and n > 0:
        b = n.to_bytes(8, 'big').lstrip(b'\0')
        b = b'\0' * rng.choice([0, 0, 0, 8 - len(b), 1 if len(b) < 8 else 0]) + b
        if all(x in RAW or x in [y for _, y in ESCAPES] for x in b):
            return chrconst(rng, bs=b)[0]
    return numtext(rng, n)


def k_size(rng, i):
    """The same constants as vector sizes: all words are usable at the same time, global and automatic."""
    s = Src(rng)
    vec, loc = [], []
    for k in range(rng.randint(2, 9)):
        n = rng.choice([0, 1, 7, 8, 9, 10, 32, 64, 65, 97, 100, 126, rng.randrange(1, 300), heavy(rng, 1, 300, 8000)])
        vec.append(('v%d' % k, n))
        s.top.append('v%d[%s];' % (k, sizetext(rng, n)))
        s.top.append('s%d %d;' % (k, 777 + k))
    for k in range(rng.randint(2, 7)):
        n = rng.choice([0, 1, 7, 8, 9, 10, 64, 97, 100, 126, rng.randrange(1, 300), heavy(rng, 1, 200, 3000)])
        loc.append(('a%d' % k, n))
    decl = ','.join('%s[%s],t%d' % (x, sizetext(rng, n), k) for k, (x, n) in enumerate(loc))
    lines = ['extrn %s;' % ','.join([x for x, _ in vec] + ['s%d' % k for k in range(len(vec))]), 'auto i,h;', 'auto %s;' % decl]
    every = vec + loc
    for k, (x, n) in enumerate(every):
        lines.append('i=0;while(i<%d){%s[i]=%d+i;i=+1;}' % (max(n, 1), x, 100000 * k))
    tr = []
    for k, (x, n) in enumerate(every):
        n = max(n, 1)
        lines.append('h=0;i=0;while(i<%d){h=h*31+%s[i];i++;}ev(3,%d,h,%s[%d]);' % (n, x, k, x, n - 1))
        h = 0
        for j in range(n):
            h = wrap(h * 31 + 100000 * k + j)
        tr.append((k, h, 100000 * k + n - 1))
    lines.append('ev(%d,99,%s);' % (1 + len(vec), ','.join('s%d' % k for k in range(len(vec)))))
    tr.append(tuple([99] + [777 + k for k in range(len(vec))]))
    lines.append('ev(%d,98,%s);' % (1 + len(loc), ','.join('t%d' % k for k in range(len(loc)))))
    tr.append(tuple([98] + [0] * len(loc)))
    s.fn(lines, tr)
    return s.case('sizes')


def k_bigsize(rng, i):
    """Character constants of three and more characters as sizes: the vectors are used at both ends and at
    some places between, next to each other, so that one that is too short overlaps what comes behind it."""
    s = Src(rng)
    lines, tr = [], []

    def places(n):
        p = {0, 1, n - 1, n - 2, n // 2, 65535, 65536, n & 65535, n & 255} | {rng.randrange(n) for _ in range(8)}
        return sorted(x for x in p if 0 <= x < n)
    glob = []
    for k in range(rng.randint(1, 3)):
        n = int.from_bytes(bytes([rng.choice([9, 10, 13, 32, 48, 97, 126])] +
                                 [rng.choice([0, 9, 10, 13, 32, 48, 97, 126, rng.randrange(32, 127)]) for _ in range(2)]), 'big')
        glob.append(('v%d' % k, n))
        s.top.append('v%d[%s];' % (k, sizetext(rng, n, True)))
    lines.append('extrn %s;' % ','.join(x for x, _ in glob))
    n = int.from_bytes(bytes([rng.randrange(1, 11), rng.choice([0, 9, 10, 13, 32, 97, 126]), rng.choice([0, 9, 10, 48, 125])]), 'big')
    loc = [('a0', n)] if rng.random() < .6 else []     # (the stack has 8 MB)
    lines.append('auto %s;' % ','.join(['t0'] + ['%s[%s],t%d' % (x, sizetext(rng, n, True), k + 1) for k, (x, n) in enumerate(loc)]))
    every = glob + loc
    for k, (x, n) in enumerate(every):
        for j in places(n):
            lines.append('%s[%s]=%d;' % (x, numtext(rng, j), 1000 * k + j % 991))
    for k, (x, n) in enumerate(every):
        for y, _ in every[k + 1:]:
            lines.append('ev(2,97,%s-%s<%d&%s-%s<%d);' % (x, y, 8 * next(m for z, m in every if z == y), y, x, 8 * n))
            tr.append((97, 0))
    for k, (x, n) in enumerate(every):
        lines.append('ev(3,%d,%s[%d],%s[0]);' % (k, x, n - 1, x))
        tr.append((k, 1000 * k + (n - 1) % 991, 1000 * k))
    s.fn(lines, tr)
    return s.case('large sizes')


KINDS = {'expr': k_expr, 'bytes': k_bytes, 'strings': k_strings, 'ival': k_ival, 'case': k_case, 'size': k_size, 'bigsize': k_bigsize}


def main(tier, seed):
    c = setup('P11', tier, seed, 'exploration',
              'one evaluation = one execution of a program whose constants are all recorded; distinct = different recorded sequences',
              ['sizes are judged by using every declared word of all vectors at the same time'])
    m = 1 if tier == 'quick' else 14
    run_kinds(KINDS, [(k, n * m) for k, n in [('expr', 50), ('bytes', 12), ('strings', 40), ('ival', 50), ('case', 50), ('size', 30), ('bigsize', 24)]])
    return c.finish('executions', 20)
