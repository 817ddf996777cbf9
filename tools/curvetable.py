"""Extract the table of standard curves into checks/curves.json, with arithmetic sanity checks independent of the library.
The file is committed and reviewed; the check does not regenerate it."""
import json, re, sys
import sympy
src = re.sub(r'(?m)^\s*//.*$', '', open('/repo/src/ecurve.c').read())
out = {}
for m in re.finditer(r'\{\s*EQType(\w+),\s*"([^"]+)",\s*((?:"[^"]*",\s*)+)(\d+)\s*\}', src):
    ty, name, vals, bits = m.groups()
    v = [int(s, 0) for s in re.findall(r'"([^"]*)"', vals)]
    p, a, b, n, h, gx, gy = v
    k = {'ShortWeierstrass': 'ws', 'Edwards': 'ed', 'Montgomery': 'mo', 'TwistedEdwards': 'te'}[ty]
    out[name] = dict(kind=k, p=p, a=a, b=b, n=n, h=h, gx=gx, gy=gy, bits=int(bits))
    assert sympy.isprime(p) and sympy.isprime(n), name
    assert abs(n * h - p - 1) <= 2 * sympy.integer_nthroot(p, 2)[0] + 2, (name, 'Hasse')
    inv = lambda t: pow(t, -1, p)
    if k == 'ws':
        assert (gy * gy - gx**3 - a * gx - b) % p == 0 and (4 * a**3 + 27 * b * b) % p
        A, B, P = a, b, (gx, gy)
    elif k == 'mo':
        assert (a * gy * gy - gx**3 - b * gx * gx - gx) % p == 0
        i3, iB = inv(3), inv(a)
        A, B = (3 - b * b) * inv(3 * a * a) % p, (2 * b**3 - 9 * b) * inv(27 * a**3) % p
        P = ((gx + b * i3) * iB % p, gy * iB % p)
    if k in ('ws', 'mo'):
        def add(P, Q):
            if P is None: return Q
            if Q is None: return P
            if P[0] == Q[0]:
                if (P[1] + Q[1]) % p == 0: return None
                l = (3 * P[0] * P[0] + A) * inv(2 * P[1]) % p
            else:
                l = (Q[1] - P[1]) * inv(Q[0] - P[0]) % p
            x = (l * l - P[0] - Q[0]) % p
            return x, (l * (P[0] - x) - P[1]) % p
        O = None
    else:
        P = (gx, gy)
        if k == 'ed':
            assert (gx * gx + gy * gy - a * a * (1 + b * gx * gx * gy * gy)) % p == 0
            def add(P, Q):
                e = b * P[0] * Q[0] * P[1] * Q[1] % p
                return (P[0] * Q[1] + P[1] * Q[0]) * inv(a * (1 + e)) % p, (P[1] * Q[1] - P[0] * Q[0]) * inv(a * (1 - e)) % p
            O = (0, a)
        else:
            assert (a * gx * gx + gy * gy - 1 - b * gx * gx * gy * gy) % p == 0
            def add(P, Q):
                e = b * P[0] * Q[0] * P[1] * Q[1] % p
                return (P[0] * Q[1] + P[1] * Q[0]) * inv(1 + e) % p, (P[1] * Q[1] - a * P[0] * Q[0]) * inv(1 - e) % p
            O = (0, 1)
    R, T, e = O, P, n
    while e:
        if e & 1: R = add(R, T)
        T = add(T, T); e >>= 1
    assert R == O, (name, 'order')
    if int(bits) != p.bit_length(): print(name, 'bits', bits, 'p', p.bit_length())
    if n.bit_length() > int(bits): print(name, 'n has', n.bit_length(), 'bits', bits)
print(len(out))
json.dump(out, open('/verif/checks/curves.json', 'w'), indent=0)
