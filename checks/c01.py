"""C01: built-in values come back equal (bounded exhaustive enumeration on the real code)"""
import os, sys, itertools
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc.core import Check, run
from mc.rt import check_roundtrip

nan, inf = float('nan'), float('inf')
SCALARS = [None, True, False,
           0, 1, -1, 2, 10, 2**31, 2**32, 2**53, 2**53 + 1, -2**53 - 1, 2**62, 2**63 - 1, 2**63, -2**63, -2**63 - 1, 2**64 - 1, 2**64, 10**30, -10**30,
           0.0, -0.0, 1.0, 1.5, 0.1, 1e308, 5e-324, inf, -inf, nan, 2.0**53, 2.0**63,
           0j, 1 + 2j, complex(nan, inf), complex(-0.0, -0.0), 3 + 0j]
TEXT = ['', 'a', 'ab', '1', ' ', 'None', '\0', 'a\0b', 'a\0', 'x\ny', '\x7f', '\x80', '\u07ff', '\u0800', '\ufeff', '\uffff', '\U00010000', '\U0010ffff', '\u20ac/\\"\'', 'x' * 1000]
BYTES = [b'', b'a', b'ab', b'\0', b'a\0', b'\0a', b'\0\0', b'\xff\xfe', b'\xc3', bytes(range(256))]
LEAVES = SCALARS + TEXT + BYTES
REPS = [None, True, 0, 7, 2**53 + 1, 2**70, 1.5, -0.0, nan, 2j, '', 'a', 'h\u00e9', b'', b'a', b'xy']
EMPTY = [[], (), set(), {}]
WORD_TEXT = ['a', 'A', ' ', '\t', '\n', '\r', '\0', '\\', '"', "'", '/', '\u00e9', '\u0301', '\ufeff', '\x1a', '\x85', '\u2028', '%', '\u0130', '\U0001f600']
WORD_BYTES = [b'a', b' ', b'\n', b'\r', b'\0', b'\\', b'"', b"'", b'\x1a', b'\x80', b'\xc3', b'\xa9', b'\xff', b'\xef\xbb\xbf']
SIZES_Q = list(range(0, 34)) + [63, 64, 65, 99, 100, 101, 102, 127, 128, 129, 255, 256, 257]
SIZES_T = list(range(0, 131)) + [255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2000, 5000]
WRAP = [('list', lambda x: [x]), ('tuple', lambda x: (x,)), ('dict', lambda x: {'k': x}), ('set', lambda x: {x}),
        ('list2', lambda x: ['s', x]), ('tuple2', lambda x: (x, None)), ('idict', lambda x: {0: 'z', 1: x})]


def hashable(x):
    try:
        hash(x)
        return True
    except TypeError:
        return False


INNER = {'l': lambda kids: [k() for k in kids], 't': lambda kids: tuple(k() for k in kids),
         'd': lambda kids: {'k%d' % i: k() for i, k in enumerate(kids)}}


def trees(n, inner='ltd', leaves=(1, 'a', 2.5, None, list, tuple, dict, set), memo={}):
    """all ordered trees of n nodes with the given leaves and kinds of inner nodes"""
    key = n, inner, repr(leaves)
    if key in memo:
        return memo[key]
    out = []
    if n == 1:
        out = [v if isinstance(v, type) else (lambda v=v: v) for v in leaves]
    else:
        for split in splits(n - 1):
            for kids in itertools.product(*[trees(k, inner, leaves) for k in split]):
                for c in inner:
                    out.append(lambda kids=kids, c=c: INNER[c](kids))
    memo[key] = out
    return out


def splits(n):
    if n == 0:
        yield ()
    for k in range(1, n + 1):
        for rest in splits(n - k):
            yield (k,) + rest


def cases(tier):
    T = tier == 'thorough'
    # 1. every leaf in every stack of up to three wrappers
    for depth in range(0, 4):
        for ws in itertools.product(WRAP if (depth < 3 or T) else WRAP[:4], repeat=depth):
            for i, leaf in enumerate(LEAVES + EMPTY):
                if depth == 3 and not T and i % 3 and leaf not in REPS[:3]:
                    continue
                x, ok = leaf, True
                for _, w in ws:
                    if w is WRAP[3][1] and not hashable(x):
                        ok = False
                        break
                    x = w(x)
                if ok:
                    yield ('v', x)
    # 2. every ordered pair of leaves in a list, tuple (and set)
    for a, b in itertools.product(LEAVES, repeat=2):
        yield ('v', [a, b])
        if T or a in REPS or b in REPS:
            yield ('v', (a, b))
            yield ('v', {a, b})
    # 3. triples and quadruples of representatives
    for t in itertools.product(REPS, repeat=3):
        yield ('v', list(t))
        if T:
            yield ('v', tuple(t))
            yield ('v', set(t))
            yield ('v', {'a': t[0], 'b': t[1], 'c': t[2]})
    if T:
        for t in itertools.product(REPS[:12], repeat=4):
            yield ('v', list(t))
    for k in range(1, 4):
        for t in itertools.combinations(REPS, k):
            yield ('v', set(t))
    # 4. all container trees
    for n in range(1, 5 if T else 4):
        for mk in trees(n):
            yield ('v', mk())
    for n in range(4, 7 if T else 6):
        for mk in trees(n, 'ld', (1, 'a', list)):
            yield ('v', mk())
    for n in range(4, 8 if T else 7):
        for mk in trees(n, 'l', (1, 'a')) + trees(n, 't', (1, 2.5, '')):
            yield ('v', mk())
    # 5. sizes
    for n in (SIZES_T if T else SIZES_Q):
        yield ('v', [str(i) for i in range(n)])
        yield ('v', list(range(n)))
        yield ('v', tuple(float(i) for i in range(n)))
        yield ('v', [i if i % 2 else 's%d' % i for i in range(n)])
        yield ('v', tuple([i] for i in range(n)))
        yield ('v', tuple((i, str(i)) for i in range(n)))
        yield ('v', set(range(n)))
        yield ('v', set('s%d' % i for i in range(n)))
        yield ('v', {i: str(i) for i in range(n)})
        yield ('v', {'k%d' % i: i for i in range(n)})
        yield ('v', {'k%d' % (n - i): [i] for i in range(n)})
        yield ('v', 'x' * n)
        yield ('v', '\u20ac' * n)
        yield ('v', b'\x80' * n)
        yield ('v', [True] * n)
        yield ('v', [None] * n)
        yield ('v', [()] * n)
        yield ('v', [[] for i in range(n)])
        yield ('v', ['x'] * n + [n])
    # 5b. one item of another kind at each border position of a long sequence
    for n in (SIZES_T[20:] if T else (16, 33, 64, 65, 101, 128, 257)):
        for home in (0, 1.5, True, 'a', 2j):
            for alien in (1.5, 2**63, 'b', None, (), True, 1 + 2j, b'c', 10**30, [1]):
                for at in {0, 1, n // 2, n - 2, n - 1}:
                    seq = [home] * n
                    seq[at] = alien
                    yield ('v', seq if at % 2 else tuple(seq))
        for alien in (1.5, 2**63, 'b', None, (), True, 1 + 2j, b'c', 10**30, ''):
            yield ('v', set(range(2, n + 2)) | {alien})
            yield ('v', set('s%d' % i for i in range(2, n + 2)) | {alien})
            yield ('v', {**{i: i for i in range(2, n + 2)}, alien: alien})
    # 5e. integers around the limit of integer string conversion
    for digits in (4096, 4097, 4299, 4300, 4301, 4302, 5000, 20000):
        for sign in (1, -1):
            for off in (-1, 0, 1):
                for c in range(len(BIG_CTX)):
                    yield ('i', sign, digits, off, c)
    # 5d. all words over hostile alphabets
    for alpha in (WORD_TEXT, WORD_BYTES):
        words = [alpha[0][:0].join(w) for k in ((1, 2, 3, 4) if T else (1, 2, 3)) for w in itertools.product(alpha, repeat=k)]
        for k in range(0, len(words), 48):
            yield ('v', words[k:k + 48] + [1])
    # 5c. long texts and bytes
    for n in (1000, 1023, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 1 << 20) + ((1 << 24,) if T else ()):
        for v in ('x' * n, 'x' * (n - 1) + '\u20ac', 'x' * (n - 1) + '\0', b'\0' * n, b'x' * n):
            yield ('v', v)
            yield ('v', [v, 1])
            yield ('v', {v: v[:-1]} if n < 5000 else {'a': v})
        yield ('v', bytearray(n))
    # 6. depth of nesting
    for n in range(1, 61 if T else 31):
        for w in (lambda x: [x], lambda x: (x,), lambda x: {'a': x}, lambda x: [x, 'y'], lambda x: {1: n, 2: x}):
            x = 'leaf'
            for _ in range(n):
                x = w(x)
            yield ('v', x)
    # 7. integers around all powers of two, alone, in a list, mixed with a float
    for k in range(0, 200 if T else 132):
        for s in (1, -1):
            for d in (-1, 0, 1):
                v = s * 2**k + d
                yield ('v', v)
                yield ('v', [v])
                yield ('v', [v, 0.5])
                yield ('v', {v, 0.5})
    # 8. all unicode scalar values, as one text and as separate items
    step = 256 if T else 2048
    for c in range(0, 0x110000, step):
        s = ''.join(chr(i) for i in range(c, c + step) if not 0xd800 <= i < 0xe000)
        yield ('v', s)
        yield ('v', {s: 1})
    for c in list(range(0, 0x300)) + [0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff]:
        yield ('v', [chr(c)])
        yield ('v', ['a' + chr(c), 1])
        if c < 256:
            yield ('v', bytes([c]))
            yield ('v', [bytes([c])])
            yield ('v', [bytes([c, 0]), 'x'])
    # 9. all float exponents
    import struct
    fl = []
    for e in range(0, 2048):
        for m in (0, 1, 2**51, 2**52 - 1):
            for s in (0, 1):
                fl.append(struct.unpack('<d', struct.pack('<Q', (s << 63) | (e << 52) | m))[0])
    for k in range(0, len(fl), 16 if T else 64):
        yield ('v', fl[k:k + (16 if T else 64)])
        yield ('v', [fl[k]])
        yield ('v', fl[k])
        yield ('v', [complex(fl[k], fl[-k - 1])])
        yield ('v', {'a': fl[k], 'b': ['s', fl[k + 1]]})


BIG_CTX = [lambda x: x, lambda x: [x], lambda x: (1, x, 2.5), lambda x: {'k': x, 'l': [x]}, lambda x: {x: 'v'}, lambda x: {x, 1}, lambda x: {(x, 1): x}]


def run_case(case):
    if case[0] == 'i':
        return check_roundtrip(BIG_CTX[case[4]](case[1] * (10 ** (case[2] - 1) + case[3])))
    return check_roundtrip(case[1])


CHECK = Check('C01', cases, run_case, level='exploration',
              rule='every value of the bounded grammar (leaves x wrapper stacks, pairs, triples, container trees, sizes, depths, power-of-two integers, '
                   'all code points, all float exponents) is dumped and loaded by the real code and compared with the original; distinct by printed value',
              bound='81 boundary leaves; wrapper stacks <= 3; all ordered pairs; triples of 16 representatives; container trees <= 3 (4) nodes; sizes <= 257 (5000), one foreign item at the borders of long sequences; text <= 2**20 (2**24); all words <= 3 (4) over 20 hostile letters and 14 bytes; depth <= 30 (60); integers <= 132 (200) bit',
              assumptions=['values are acyclic and built from exact built-in types', 'text contains no lone surrogates (refused by UTF-8 encoding)'])
if __name__ == '__main__':
    run(CHECK)
