"""number theory used by the specifications"""
def is_prime(n):
    if n < 2: return False
    for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if n % p == 0: return n == p
    d = n - 1; s = 0
    while d % 2 == 0: d //= 2; s += 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        x = pow(a, d, n)
        if x in (1, n - 1): continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1: break
        else: return False
    return True

def factors(n):
    out = set(); i = 2
    def rho(n):
        import math
        if n % 2 == 0: return 2
        c = 1
        while True:
            x = y = 2; d = 1
            while d == 1:
                x = (x * x + c) % n; y = (y * y + c) % n; y = (y * y + c) % n
                d = math.gcd(abs(x - y), n)
            if d != n: return d
            c += 1
    st = [n]
    while st:
        m = st.pop()
        if m == 1: continue
        if is_prime(m): out.add(m); continue
        for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31):
            if m % p == 0:
                out.add(p)
                while m % p == 0: m //= p
                st.append(m); break
        else:
            d = rho(m); st += [d, m // d]
    return out

def primes_1mod(m, start, count):
    """primes congruent to 1 modulo m, upwards from start"""
    out = []; q = (start // m) * m + 1
    while len(out) < count:
        if q > start and is_prime(q): out.append(q)
        q += m
    return out
