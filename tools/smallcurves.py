"""Small curves of prime (sub)group order for replay of the scalar multiplication checks -> checks/smallcurves.json"""
import json, sympy, random
R = random.Random(7)


def legsum(p, f):
    qr = bytearray(p)
    for i in range(1, (p + 1) // 2):
        qr[i * i % p] = 1
    return sum((1 if v == 0 else 2 if qr[v] else 0) for v in (f(x) for x in range(p)))


def sq(a, p):
    return sympy.sqrt_mod(a % p, p)


def ws(p, want):
    while 1:
        a, b = R.randrange(1, p), R.randrange(1, p)
        if (4 * a**3 + 27 * b * b) % p == 0:
            continue
        n = 1 + legsum(p, lambda x: (x * x * x + a * x + b) % p)
        if not (sympy.isprime(n) and want(n)):
            continue
        while 1:
            x = R.randrange(p)
            y = sq(x**3 + a * x + b, p)
            if y:
                return dict(kind='ws', p=p, a=a, b=b, n=n, h=1, gx=x, gy=int(y), bits=p.bit_length())


def other(kind, p, want):
    from sys import path
    path[:0] = ['/verif/checks']
    while 1:
        a, b = R.randrange(2, p), R.randrange(2, p)
        if kind == 'ed':
            if sympy.jacobi_symbol(b * a**4 % p, p) != -1:
                continue
            aa, d = 1, b * pow(a, 4, p) % p      # scaled to c = 1
        elif kind == 'te':
            aa, d = a, b
            if sympy.jacobi_symbol(a, p) != 1 or sympy.jacobi_symbol(b, p) != -1:
                continue
        if kind == 'mo':
            B, A = a, b
            if (A * A - 4) % p == 0:
                continue
        else:
            B, A = 4 * pow(aa - d, -1, p) % p, 2 * (aa + d) * pow(aa - d, -1, p) % p
        iB = pow(B, -1, p)
        N = 1 + legsum(p, lambda x: (x * x * x + A * x * x + x) * iB % p)
        h = N & -N
        n = N // h
        if h > 8 or not (sympy.isprime(n) and want(n)):
            continue
        from types import SimpleNamespace
        c = dict(kind=kind, p=p, a=a, b=b)
        E = Aff(c)
        while 1:
            x = R.randrange(1, p)
            if kind == 'mo':
                y2 = (x**3 + A * x * x + x) * iB
            elif kind == 'ed':
                y2 = (a * a - x * x) * pow(1 - a * a * b * x * x, -1, p)
            else:
                y2 = (1 - a * x * x) * pow(1 - b * x * x, -1, p)
            y = sq(y2, p)
            if not y:
                continue
            G = E.mul(h, (x, int(y)))
            if G not in (E.O(), None):
                assert E.mul(n, G) == E.O()
                return dict(c, n=n, h=h, gx=G[0], gy=G[1], bits=p.bit_length())


src = open('/verif/checks/c17.py').read()
exec(src[src.index('class Aff'):src.index('def expect(')])
out = dict(ws16n17=ws(65521, lambda n: n > 65536), ws16=ws(65479, lambda n: n < 65536), ws8n9=ws(251, lambda n: n > 256), ws8=ws(251, lambda n: n < 251), ws5=ws(31, lambda n: n > 31), ws9=ws(509, lambda n: n > 260 and n < 512),
           ed16=other('ed', 65521, lambda n: 1), mo16=other('mo', 65521, lambda n: 1), te16=other('te', 65521, lambda n: 1),
           ed10=other('ed', 1009, lambda n: n > 130), mo10=other('mo', 1009, lambda n: n > 100), te10=other('te', 1009, lambda n: n > 130))
for k, c in out.items():
    print(k, c)
json.dump(out, open('/verif/checks/smallcurves.json', 'w'), indent=0)
