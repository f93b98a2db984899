"""Python-integer judge: recomputes the reference arithmetic of the monitors and
decides every published constant.  Shares no code with the Rust side."""
import random

MODULI = {"e221_3": (221, 3), "e222_117": (222, 117), "e251_9": (251, 9), "e255_19": (255, 19),
          "e382_105": (382, 105), "e383_187": (383, 187), "e414_17": (414, 17), "e511_187": (511, 187), "e521_1": (521, 1)}
P = {k: 2**n - c for k, (n, c) in MODULI.items()}


def legendre(a, p):
    a %= p
    if a == 0:
        return 0
    return 1 if pow(a, (p - 1) // 2, p) == 1 else -1


def padd(p, d, a, b):
    (x1, y1), (x2, y2) = a, b
    t = d * x1 * x2 * y1 * y2 % p
    return ((x1 * y2 + y1 * x2) * pow(1 + t, -1, p) % p, (y1 * y2 - x1 * x2) * pow(1 - t, -1, p) % p)


def pmul(p, d, k, a):
    r = (0, 1)
    for b in bin(k)[2:] if k else "":
        r = padd(p, d, r, r)
        if b == "1":
            r = padd(p, d, r, a)
    return r


def check(text):
    """(number of comparisons, mismatches) of an `oracle` dump."""
    n, bad, mods = 0, [], set()
    for line in text.splitlines():
        w = line.split()
        p = P[w[1]]
        h = lambda i: int(w[i], 16)
        ok = None
        if w[0] == "modulus":
            ok = h(2) == p
            mods.add(w[1])
        elif w[0] == "add":
            ok = h(4) == (h(2) + h(3)) % p
        elif w[0] == "sub":
            ok = h(4) == (h(2) - h(3)) % p
        elif w[0] == "mul":
            ok = h(4) == h(2) * h(3) % p
        elif w[0] == "small":
            ok = h(4) == int(w[2]) % p
        elif w[0] == "divi":
            ok = h(4) < p and h(4) * int(w[3]) % p == h(2)
        elif w[0] == "inv":
            ok = (h(4) * h(2) % p == 1) if h(2) else h(4) == 0
        elif w[0] == "leg":
            ok = int(w[4]) == legendre(h(2), p)
        elif w[0] == "sqrt":
            sq = legendre(h(2), p) != -1
            ok = (w[3] == "1") == sq and (not sq or h(4) * h(4) % p == h(2))
        elif w[0] == "padd":
            d = h(2)
            for x, y in ((h(3), h(4)), (h(5), h(6))):
                if (x * x + y * y - 1 - d * x * x * y * y) % p:
                    ok = False
            if ok is None:
                ok = (h(7), h(8)) == padd(p, d, (h(3), h(4)), (h(5), h(6)))
        elif w[0] == "pmul":
            ok = (h(6), h(7)) == pmul(p, h(2), h(5), (h(3), h(4)))
        n += 1
        if not ok:
            bad.append(line)
    if mods != set(P) or n < 2000:
        bad.append("incomplete dump (%d lines)" % n)
    return n, bad


# ---- published constants ------------------------------------------------
# safecurves.cr.yp.to: name -> (field, cofactor, shape parameter, x, y, order)
EDWARDS = {
    "E222": ("e222_117", 4, 160102, 0x19b12bb156a389e55c9768c303316d07c23adab3736eb2bc3eb54e51, 0x1c,
             0xffffffffffffffffffffffffffff70cbc95e932f802f31423598cbf),
    "CURVE1174": ("e251_9", 4, -1174, 0x37fbb0cea308c479343aee7c029a190c021d96a492ecd6516123f27bce29eda,
                  0x6b72f82d47fb7cc6656841169840e0c4fe2dee2af3f976ba4ccb1bf9b46360e,
                  0x1fffffffffffffffffffffffffffffff77965c4dfd307348944d45fd166c971),
    "E382": ("e382_105", 4, -67254,
             0x196f8dd0eab20391e5f05be96e8d20ae68f840032b0b64352923bab85364841193517dbce8105398ebc0cc9470f79603, 0x11,
             0xfffffffffffffffffffffffffffffffffffffffffffffffd5fb21f21e95eee17c5e69281b102d2773e27e13fd3c9719),
    "CURVE41417": ("e414_17", 8, 3617,
                   0x1a334905141443300218c0631c326e5fcd46369f44c03ec7f57ff35498a4ab4d6d6ba111301a73faa8537c64c4fd3812f3cbc595, 0x22,
                   0x7ffffffffffffffffffffffffffffffffffffffffffffffffffeb3cc92414cf706022b36f1c0338ad63cf181b0e71a5e106af79),
    "E521": ("e521_1", 4, -376014,
             0x752cb45c48648b189df90cb2296b2878a3bfd9f42fc6c818ec8bf3c9c0c6203913f6ecc5ccc72434b1ae949d568fc99c6059d0fb13364838aa302a940a2f19ba6c,
             0xc,
             0x7ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffd15b6c64746fc85f736b8af5e7ec53f04fbd8c4569a8f1f4540ea2435f5180d6b),
}
MONTGOMERY = {
    "M221": ("e221_3", 8, 117050, 4, 0xf7acdd2a4939571d1cef14eca37c228e61dbff10707dc6c08c5056d,
             0x40000000000000000000000000015a08ed730e8a2f77f005042605b),
    "CURVE25519": ("e255_19", 8, 486662, 9, 0x20ae19a1b8a086b4e01edd2c7748d14c923d4d7e6d7c61b229e9c5a27eced3d9,
                   2**252 + 27742317777372353535851937790883648493),
    "M383": ("e383_187", 8, 2065150, 12,
             0x1ec7ed04aaf834af310e304b2da0f328e7c165f0e8988abd3992861290f617aa1f1b2e7d0b6e332e969991b62555e77e,
             0x10000000000000000000000000000000000000000000000006c79673ac36ba6e7a32576f7b1b249e46bbc225be9071d7),
    "CURVE383187": ("e383_187", 8, 229969, 5,
                    0x1eebe07dc1871896732b12d5504a32370471965c7a11f2c89865f855ab3cbd7c224e3620c31af3370788457dd5ce46df,
                    0x1000000000000000000000000000000000000000000000000e85a85287a1488acd41ae84b2b7030446f72088b00a0e21),
    "M511": ("e511_187", 8, 530438, 5,
             0x2fbdc0ad8530803d28fdbad354bb488d32399ac1cf8f6e01ee3f96389b90c809422b9429e8a43dbf49308ac4455940abe9f1dbca542093a895e30a64af056fa5,
             0x100000000000000000000000000000000000000000000000000000000000000017b5feff30c7f5677ab2aeebd13779a2ac125042a6aa10bfa54c15bab76baf1b),
}


def prime(n, rounds=64):
    if n < 2 or n % 2 == 0:
        return n == 2
    d, s = n - 1, 0
    while d % 2 == 0:
        d //= 2
        s += 1
    r = random.Random(n)
    for _ in range(rounds):
        x = pow(r.randrange(2, n - 1), d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def hasse(p, h, l):
    return (h * l - p - 1) ** 2 <= 4 * p


def mont_annihilates(p, a, x, k):
    """x-only ladder: k * (x, ..) is the point at infinity."""
    a24 = (a + 2) * pow(4, -1, p) % p
    x2, z2, x3, z3 = 1, 0, x, 1
    for b in bin(k)[2:]:
        if b == "1":
            x2, z2, x3, z3 = x3, z3, x2, z2
        aa, bb = (x2 + z2) ** 2 % p, (x2 - z2) ** 2 % p
        e = aa - bb
        da, cb = (x3 - z3) * (x2 + z2) % p, (x3 + z3) * (x2 - z2) % p
        x3, z3 = (da + cb) ** 2 % p, x * (da - cb) ** 2 % p
        x2, z2 = aa * bb % p, e * (bb + a24 * e) % p
        if b == "1":
            x2, z2, x3, z3 = x3, z3, x2, z2
    return z2 % p == 0


def constants(text, thorough):
    """(facts judged, violations, samples) of a `consts` dump."""
    facts, bad, samples = [], [], []

    def fact(name, ok, why=""):
        facts.append(name)
        if not ok:
            bad.append((name.replace(" ", "-"), "%s does not hold %s" % (name, why)))

    seen = {}
    points = {}
    for line in text.splitlines():
        w = line.split()
        if w[0] == "const":
            seen[(w[1], w[2])] = (int(w[3], 16), int(w[4], 16))
            if w[2].endswith("BASE_X"):
                samples.append(line)
        elif w[0] == "fact":
            fact(line[:-2].replace("fact ", "", 1) + " (in the crate's own arithmetic)", w[-1] == "1")
        elif w[0] == "size":
            n = MODULI[w[1]][0]
            fact("%s sizes" % w[1], int(w[2]) == n and int(w[3]) == (n + 7) // 8, "got " + line)
        elif w[0] == "point":
            points[(w[1], w[2])] = tuple(int(x, 16) for x in w[3:6])

    def want(field, name, value):
        p = P[field]
        got = seen.pop((field, name), None)
        if got is None:
            raise RuntimeError("constant %s %s was not observed" % (field, name))
        fact("%s %s stored" % (field, name), got[0] == value, "stored as 0x%x, published 0x%x" % (got[0], value))
        fact("%s %s observed" % (field, name), got[1] == value % p, "read as 0x%x, published 0x%x" % (got[1], value % p))

    for f, p in P.items():
        for z in ("ZERO", "zero()"):
            want(f, z, 0)
        for z in ("ONE", "one()"):
            want(f, z, 1)
        for z in ("M_ONE", "m_one()"):
            want(f, z, p - 1)
        for z in ("MODULUS", "modulus()"):
            want(f, z, p)
        fact("%s modulus prime" % f, prime(p))
    for f in ("e221_3", "e255_19", "e383_187", "e511_187"):
        want(f, "M_HALF", (P[f] - 1) // 2)
    for name, (f, h, d, x, y, l) in EDWARDS.items():
        p = P[f]
        want(f, name + "_D", d % p)
        want(f, name + "::d_val()", d % p)
        want(f, name + "_BASE_X", x)
        want(f, name + "_BASE_Y", y)
        want(f, name + "_ORDER", l)
        fact(name + " base on the curve", (x * x + y * y - 1 - d * x * x * y * y) % p == 0)
        fact(name + " d non-square", legendre(d, p) == -1)
        fact(name + " order prime", prime(l))
        fact(name + " order in the Hasse interval", hasse(p, h, l))
        fact(name + " order annihilates the base", pmul(p, d, l, (x, y)) == (0, 1))
        for what, w in (("base", (x, y)), ("order*base", (0, 1)), ("(order+1)*base", (x, y)), ("(order-1)*base", (-x % p, y))):
            X, Y, Z = points.pop((name, what))
            fact("%s %s" % (name, what), Z % p != 0 and (X - w[0] * Z) % p == 0 and (Y - w[1] * Z) % p == 0,
                 "got (%x : %x : %x)" % (X, Y, Z))
    for name, (f, h, a, x, y, l) in MONTGOMERY.items():
        p = P[f]
        want(f, name + "_BASE_X", x)
        want(f, name + "_BASE_Y", y)
        want(f, name + "_ORDER", l)
        fact(name + " base on the curve", (y * y - x ** 3 - a * x * x - x) % p == 0)
        fact(name + " order prime", prime(l))
        fact(name + " order in the Hasse interval", hasse(p, h, l))
        fact(name + " order annihilates the base", mont_annihilates(p, a, x, l))
        fact(name + " order+1 does not", not mont_annihilates(p, a, x, l + 1))
    if seen or points:
        raise RuntimeError("constants observed but not judged: %s %s" % (list(seen), list(points)))
    return facts, bad, samples[:6]
