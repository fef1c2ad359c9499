"""Addresses: text, bytes and values are the same thing; nothing else is an address."""
from symex.api import unit
from pyexec.base.address import Address, AddressPrefix, is_icon_address_valid
from pyexec.base.exception import InvalidParamsException

META = {'assumptions': []}
HEX = '0123456789abcdef'


def err(e):
    if type(e).__module__.startswith('symex'):
        raise e


def hexval(ctx, c):
    """value of a hex digit given as a code point term"""
    return ctx.ite(c < 58, c - 48, c - 87)


@unit(cases=[dict(p=p) for p in ('hx', 'cx')], covers=['ok'], bounds='every 20 byte body, both kinds')
def forward(ctx, p):
    body = ctx.bytes('body', 20)
    kind = AddressPrefix.CONTRACT if p == 'cx' else AddressPrefix.EOA
    a = Address(kind, body)
    s = str(a)
    ctx.check(ctx.eq(s, p + body.hex()), 'text form is the prefix and the hex of the body')
    b = a.to_bytes()
    ctx.check(ctx.eq(b, (b'\x01' if p == 'cx' else b'\x00') + body), 'bytes form is the kind and the body')
    ctx.check(is_icon_address_valid(s), 'its own text is valid')
    for c in (Address.from_string(s), Address.from_bytes(b)):
        ctx.check(ctx.eq(c.body, body) and c.prefix == kind, 'parsing gives the same address')
        ctx.check(a == c, 'and it is equal')
        ctx.check(ctx.Not(a != c), 'and not unequal')
        ctx.check(hash(a) == hash(c), 'with the same hash')
    ctx.check(a.is_contract == (p == 'cx'), 'contract flag')
    ctx.cover('ok')


@unit(cases=[dict(n=n) for n in (42,)] + [dict(n=n) for n in (0, 1, 2, 3, 21, 40, 41, 43, 44, 66)],
      covers=['valid', 'invalid'], bounds='texts of 42 characters with any prefix and any characters among four body '
      'positions (first, second, middle, last), the others hex; other lengths: hex text with any prefix', enum_limit=4000)
def from_text(ctx, n):
    head = ctx.str('head', min(n, 2))
    if n < 2:
        s = head
    else:
        pos = [0, 1, (n - 2) // 2, n - 3]
        s = head
        free = []
        for i in range(n - 2):
            if i in pos:
                c = ctx.str('c%d' % i, 1)
                free.append(c)
            else:
                c = ctx.str('h%d' % i, 1, alphabet=HEX)
            s = s + c
    try:
        a = Address.from_string(s)
    except InvalidParamsException:
        a = None
    except BaseException as e:
        err(e)
        ctx.fail('a malformed address is an invalid parameter')
        return
    v = is_icon_address_valid(s)
    ctx.check(bool(v) == (a is not None), 'validity check and parsing agree')
    ok = n == 42
    if ok:
        ok = ctx.Or(ctx.eq(head, 'hx'), ctx.eq(head, 'cx'))
        for c in free:
            o = ord(c)
            ok = ctx.And(ok, ctx.Or(ctx.And(o >= 48, o <= 57), ctx.And(o >= 97, o <= 102)))
    if a is None:
        ctx.check(ctx.Not(ok), 'a well formed address is accepted')
        ctx.cover('invalid')
    else:
        ctx.check(ok, 'only a well formed address is accepted')
        ctx.check(ctx.eq(str(a), s), 'text form is the text it was parsed from')
        ctx.cover('valid')


@unit(cases=[dict(n=n) for n in (0, 1, 19, 20, 21, 22, 40)], covers=['ok', 'none'],
      bounds='every byte string of those lengths')
def from_raw(ctx, n):
    b = ctx.bytes('b', n)
    try:
        a = Address.from_bytes(b)
    except BaseException as e:
        err(e)
        a = 'error'
    if n not in (20, 21):
        ctx.check(a is None, 'no address of another length')
        ctx.cover('none')
    elif n == 20:
        ctx.check(ctx.eq(a.to_bytes(), b'\x00' + b), 'a bare body is an external account')
    elif a == 'error':
        ctx.check(b[0] > 1, 'kinds 0 and 1 are accepted')
    else:
        ctx.check(b[0] <= 1, 'no other kind')
        ctx.check(ctx.eq(a.to_bytes(), b), 'the address of those bytes')
        ctx.cover('ok')


@unit(cases=[dict(n=n) for n in (0, 1, 19, 20, 21, 32)], covers=['ok', 'bad'], bounds='bodies of those lengths')
def length(ctx, n):
    try:
        Address(AddressPrefix.CONTRACT, ctx.bytes('b', n))
        ok = True
    except InvalidParamsException:
        ok = False
    ctx.check(ok == (n == 20), 'a body has 20 bytes')
    ctx.cover('ok' if ok else 'bad')


@unit(cases=[dict(p=p, q=q) for p in (0, 1) for q in (0, 1)], covers=['same', 'different'], bounds='every pair')
def equality(ctx, p, q):
    x, y = ctx.bytes('x', 20), ctx.bytes('y', 20)
    a, b = Address(AddressPrefix(p), x), Address(AddressPrefix(q), y)
    same = ctx.And(p == q, ctx.eq(x, y))
    e = (a == b)
    ctx.check(ctx.eq(bool(e), True) == bool(same), 'equal exactly when kind and body are')
    ctx.check(bool(a != b) != bool(e), 'unequal exactly when not equal')
    ctx.check(not (a == str(a)), 'an address is no text')
    if same:
        ctx.check(hash(a) == hash(b), 'equal addresses hash alike')
        ctx.cover('same')
    else:
        ctx.cover('different')


@unit(cases=[dict(n=n) for n in range(1, 21)], covers=['ok'], bounds='every number of up to 20 bytes')
def from_number(ctx, n):
    v = ctx.int('v', 0 if n == 1 else 1 << (8 * n - 9), (1 << (8 * n - 1)) - 1)
    a = Address.from_prefix_and_int(AddressPrefix.CONTRACT, v)
    ctx.check(ctx.eq(int.from_bytes(a.body, 'big'), v), 'the body is the number')
    ctx.cover('ok')
