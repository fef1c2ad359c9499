"""Named parameters are texts that reach the method as values of its declared types, or not at all."""
from symex.api import unit
from harness import sim, scores
from harness.sim import Peer, raw_addr, addr, info, Address, AddressPrefix

META = {'assumptions': ['integer wire encoding abstracted by the contract decided in C01']}

HEX = '0123456789abcdefABCDEF'
ARGS = ['i', 's', 'b', 't', 'a']


def call(ctx, params, method='typed'):
    """(status, arguments the method saw or None)"""
    seen = []

    def script(score, name, *args):
        seen.append(list(args))
        return 1
    scores.CTX[0] = script
    peer = Peer(ctx)
    f = peer.invoke(sim.package(scores.Scripted), False, raw_addr('hx', 2), raw_addr('cx', 1), 0, 10 ** 6, method,
                    params, info(ctx, {}))
    ctx.check(f.escaped is None and peer.errors == [] and f.result is not None, 'the request is answered')
    ctx.check(len(seen) <= 1, 'the method runs at most once')
    if f.result is None:
        return -1, None
    ctx.check((f.result[0] == 0) == (len(seen) == 1), 'it succeeds when the method runs, and fails otherwise')
    return f.result[0], (seen[0] if seen else None)


def only(ctx, name, text, raw):
    """the value of this parameter, others are left out"""
    st, seen = call(ctx, {name: text.encode('utf-8') if raw else text})
    if seen is None:
        return st, False, None
    k = ARGS.index(name)
    ctx.check(all(v is None for j, v in enumerate(seen) if j != k), 'parameters left out have their defaults')
    return st, True, seen[k]


def number(cs, base):
    """value of digits, written independently"""
    v = 0
    for c in cs:
        o = ord(c)
        v = v * base + (o - 48 if o <= 57 else o - 55 if o <= 70 else o - 87)
    return v


def among(ctx, c, chars):
    """is this character one of these, as one formula"""
    o, codes, terms = ord(c), sorted(set(map(ord, chars))), []
    while codes:
        hi = codes[0]
        while hi + 1 in codes:
            hi += 1
        terms.append(ctx.And(o >= codes[0], o <= hi))
        codes = [x for x in codes if x > hi]
    return ctx.Or(*terms)


def all_among(ctx, s, chars):
    return ctx.And(*[among(ctx, s[i], chars) for i in range(len(s))]) if len(s) else True


@unit(cases=[dict(form=f, n=n) for f, ns in (('0x', (1, 2, 3)), ('-0x', (1, 2)), ('', (1, 2, 3)), ('-', (1, 2)))
             for n in ns], thorough_cases=[dict(form=f, n=n) for f, n in (('0x', 5), ('-0x', 4), ('', 12), ('-', 12))],
      covers=['number'], enum_limit=2000,
      bounds='hexadecimal and decimal texts of up to 3 digits (12 in the thorough tier), signs, both cases of letters')
def integers(ctx, form, n):
    base = 16 if 'x' in form else 10
    s = ctx.str('digits', n, alphabet=HEX if base == 16 else HEX[:10])
    want = 0
    for i in range(n):
        want = want * base + number(s[i], base)
    if form.startswith('-'):
        want = -want
    raw = ctx.flag('raw')
    st, ran, v = only(ctx, 'i', form + s, raw)
    ctx.check(ran, 'a well formed integer is accepted')
    if ran:
        ctx.check(type(v) is int and ctx.eq(v, want), 'with its value')
        ctx.cover('number')
    st, ran, v = only(ctx, 't', form + s, raw)
    ctx.check(ran, 'and for a boolean too')
    if ran:
        ctx.check(isinstance(v, bool) and ctx.eq(v, want != 0), 'which is whether it is not zero')


@unit(cases=[dict(value=v) for v in (0, 1, 255, 256, 1 << 64, (1 << 256) - 1, (1 << 512) + 12345, 10 ** 40)], covers=['number'],
      bounds='eight long integers with both signs and forms')
def long_integers(ctx, value):
    neg, hexa = ctx.flag('neg'), ctx.flag('hex')
    text = ('-' if neg else '') + (hex(value) if hexa else str(value))
    st, ran, v = only(ctx, 'i', text, True)
    ctx.check(ran and type(v) is int and v == (-value if neg else value), 'a long integer is itself')
    ctx.cover('number')


@unit(cases=[dict(kind=k, prefix=p, n=n) for k in ('i', 't') for p in ('', '0x', '-0x') for n in (0, 1, 2)],
      thorough_cases=[dict(kind='i', prefix=p, n=3) for p in ('', '0x')],
      covers=['accepted', 'refused'], enum_limit=4000,
      bounds='any ASCII text of up to 2 characters (3 in the thorough tier) after no prefix, 0x or -0x')
def malformed(ctx, kind, prefix, n):
    s = ctx.str('text', n, hi=126)
    st, ran, v = only(ctx, kind, prefix + s, True)
    base = 16 if prefix else 10
    digits = HEX if base == 16 else HEX[:10]
    if ran:
        ctx.cover('accepted')
        # what is accepted beside plain digits: surrounding spaces, one sign in front of them
        t = s.strip(' \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f')
        if t[:1] in ('+', '-') and not prefix:
            t = t[1:]
        ctx.check(len(t) > 0 or prefix == 'x', 'there is a digit')
        ctx.check(all_among(ctx, t, digits + '_' + ('xX' if base == 16 else '')), 'and nothing else')
        return
    ctx.cover('refused')
    if n:
        ctx.check(ctx.Not(all_among(ctx, s, digits)), 'a well formed integer is not refused')


@unit(cases=[dict(n=n, prefix=p) for n in range(0, 6) for p in ('', '0x')], thorough_cases=[dict(n=12, prefix='0x')],
      covers=['bytes', 'refused'],
      bounds='hexadecimal texts of up to 5 characters (12 in the thorough tier), with or without 0x')
def hexes(ctx, n, prefix):
    s = ctx.str('digits', n, alphabet=HEX)
    if n > 1 and not prefix:
        ctx.assume(ctx.Not(ctx.eq(s[:2], '0x')))
    raw = ctx.flag('raw')
    st, ran, v = only(ctx, 'b', prefix + s, raw)
    if n % 2:
        ctx.check(not ran, 'half a byte is refused')
        ctx.cover('refused')
        return
    ctx.check(ran, 'well formed bytes are accepted')
    if ran:
        ctx.cover('bytes')
        want = [number(s[2 * i], 16) * 16 + number(s[2 * i + 1], 16) for i in range(n // 2)]
        ctx.check(isinstance(v, bytes) and ctx.eq(ctx.len(v), n // 2), 'as bytes')
        ctx.check(ctx.And(*[v[i] == w for i, w in enumerate(want)]) if want else True, 'that they denote')


@unit(cases=[dict(n=n) for n in (1, 2)], thorough_cases=[dict(n=3)], covers=['bytes', 'refused'], enum_limit=4000,
      bounds='any ASCII text of up to 2 characters (3 in the thorough tier) as bytes')
def hexes_malformed(ctx, n):
    s = ctx.str('text', n, hi=126)
    prefix = ctx.choice('prefix', ['', '0x', '00', '0x00'])
    st, ran, v = only(ctx, 'b', prefix + s, True)
    if ran:
        ctx.cover('bytes')
        ctx.check(ctx.Or(all_among(ctx, s, HEX + ' \t\n\r\x0b\x0c'), ctx.eq(prefix + s, '0x')),
                  'only hexadecimal digits and spaces are bytes')
    else:
        ctx.cover('refused')
        ctx.check(ctx.Not(all_among(ctx, s, HEX)) if n % 2 == 0 else True, 'well formed bytes are accepted')


@unit(cases=[dict(n=n) for n in (0, 1, 2)], thorough_cases=[dict(n=3), dict(n=4)], covers=['text'],
      bounds='texts of up to 2 characters (4 in the thorough tier), every content; long ones')
def texts(ctx, n):
    s = ctx.str('s', n) + ctx.choice('tail', ['', 'x' * 1000, 'é한'])
    st, ran, v = only(ctx, 's', s, ctx.flag('raw'))
    ctx.check(ran and isinstance(v, str) and ctx.eq(v, s), 'a text is itself')
    ctx.cover('text')


@unit(cases=[dict(n=n) for n in (42, 0, 2, 41, 43)], covers=['address', 'refused'], enum_limit=2000,
      bounds='texts of 42 characters with any prefix and any ASCII character at four positions; some other lengths')
def addresses(ctx, n):
    head = ctx.str('head', min(n, 2), hi=126)
    body = ['0123456789abcdef'[(7 * i + 3) % 16] for i in range(max(n - 2, 0))]
    free = [k for k in (0, 1, 20, 39) if k < len(body)]
    syms = []
    for k in free:
        body[k] = ctx.str('c%d' % k, 1, hi=126)
        syms.append(body[k])
    s = head
    for c in body:
        s = s + c
    st, ran, v = only(ctx, 'a', s, True)
    well = n == 42
    if well:
        well = ctx.And(ctx.Or(ctx.eq(head, 'hx'), ctx.eq(head, 'cx')), *[among(ctx, c, HEX[:16]) for c in syms])
    ctx.check(ctx.eq(ran, well), 'exactly the well formed addresses are accepted')
    if not ran:
        ctx.cover('refused')
        ctx.check(st == 6, 'as invalid parameters otherwise')
        return
    ctx.cover('address')
    ctx.check(isinstance(v, Address) and ctx.eq(str(v), s), 'and reach the method as that address')


@unit(cases=[dict(name=n) for n in ARGS], covers=['refused', 'none', 'text'],
      bounds='every declared type with a value that is not a text')
def wrong_kinds(ctx, name):
    kind, v = ctx.choice('value', [(type(v).__name__, v) for v in (5, True, addr('hx', 1), [1], {'x': 1}, None)])
    st, seen = call(ctx, {name: v})
    if kind == 'NoneType':
        ctx.check(seen is not None and all(x is None for x in seen), 'nothing stays nothing')
        ctx.cover('none')
    else:
        ctx.check(seen is None and st == 6, 'what is not a text is an invalid parameter')
        ctx.cover('refused')
    st, seen = call(ctx, {'i': b'0x10', 's': b'y', 'b': b'ff', 't': b'0x0', 'a': ('cx' + '12' * 20).encode()})
    ctx.check(seen == [16, 'y', b'\xff', False, Address(AddressPrefix.CONTRACT, b'\x12' * 20)] if seen else False,
              'all of them together')
    ctx.cover('text')


@unit(cases=[dict()], covers=['refused', 'ran'],
      bounds='calls of a method with a mandatory and an optional parameter: every subset and one more name of 2 characters')
def names(ctx):
    params = {}
    if ctx.flag('p'):
        params['p'] = b'-0x11'
    if ctx.flag('q'):
        params['q'] = b'qq'
    extra = ctx.choice('extra', [None, '', 'r', 'P', 'self', 'pp'])
    if extra is not None:
        params[extra] = b'0x1'
    st, seen = call(ctx, params, 'two')
    if extra is None and 'p' in params:
        ctx.check(seen == [-17, 'qq' if 'q' in params else 'dflt'], 'each by its own name')
        ctx.cover('ran')
    else:
        ctx.check(seen is None and st != 0, 'missing and unknown names are refused')
        ctx.cover('refused')


@unit(cases=[dict(n=n) for n in (0, 1, 2, 3)], covers=['ran', 'refused'],
      bounds='positional values of any supported type, given to a method of two parameters')
def positional(ctx, n):
    vals = [ctx.choice('v%d' % i, [0, 1]) for i in range(n)]
    vals = [ctx.int('i%d' % i, -(1 << 64), 1 << 64) if k else ctx.str('s%d' % i, 1, hi=0x10FFFF if n < 3 else 126) for i, k in enumerate(vals)]
    st, seen = call(ctx, vals, 'two')
    if n in (1, 2):
        ctx.check(seen is not None and ctx.eq(seen, vals + ['dflt'] * (2 - n)), 'values are passed as they are, in order')
        ctx.cover('ran')
    else:
        ctx.check(seen is None and st != 0, 'too few or too many are refused')
        ctx.cover('refused')
