"""C19, C20, C21: hexadecimal conversion, number parsing, operations on blocks of bytes"""
import vf

DRIVERS = {"misc": {}}
DIG = "0123456789abcdefghijklmnopqrstuvwxyz"


def hx(b):
    return "".join("%02x" % x for x in b) or "-"


def chunks(ops, n=40):
    return [ops[i:i + n] for i in range(0, len(ops), n)]


def graph(c, module, mod):
    r = c.mc("Misc", module, "%s_%s.cfg" % (module, c.tier), edges=True)
    ops = [vf.hexlines([list(map(str, e[1]))])[0] for e in r.edges]
    return ops


def rand_bytes(rng, n):
    k = rng.random()
    if k < 0.4:
        return [rng.randrange(256) for _ in range(n)]
    if k < 0.7:
        return [rng.choice([0, 1, 127, 128, 254, 255]) for _ in range(n)]
    return [rng.randrange(32, 127) for _ in range(n)]


def c19(c):
    ops = graph(c, "MC_Hex", "misc") + ["null"]
    c.validate("misc", "Misc", "Trace_Misc", "Trace_Misc.cfg", chunks(ops), label="graph")
    rng, ops = c.rng, []
    for _ in range(3000 if not c.thorough else 60000):
        k = rng.choice(["unhex", "hex", "hexdump"])
        if k == "unhex":
            n = rng.choice([0, 1, 2, 3, 4, 8, 15, 16, 17, 32, 64] + ([510, 512, 514, 4000] if rng.random() < 0.05 else []))
            t = [ord(rng.choice("0123456789abcdefABCDEF")) for _ in range(n)]
            if n and rng.random() < 0.4:
                t[rng.randrange(n)] = rng.choice([rng.randrange(1, 256), ord(rng.choice("gGxX /:@`+-"))])
            ops.append("unhex " + hx(t))
        else:
            ops.append("%s %s" % (k, hx(rand_bytes(rng, rng.choice([0, 1, 2, 7, 8, 9, 15, 16, 17, 18, 33, 64, 200] + ([255, 256, 257, 2000] if rng.random() < 0.05 else []))))))
    c.validate("misc", "Misc", "Trace_Misc", "Trace_Misc.cfg", chunks(ops), label="random")
    # more than fits in 16 bits
    big = []
    for n in [32767, 32768, 65535, 65536, 65537] + ([70000, 150000] if c.thorough else []):
        b = rand_bytes(rng, n)
        t = [ord(x) for x in bytes(b).hex()]
        big += [["hex " + hx(b)]] + ([["hexdump " + hx(b)], ["unhex " + hx(t)]] if n != 32767 else [])
        t[rng.choice([len(t) - 2, len(t) - 1, len(t) // 2])] = ord("g")
        big.append(["unhex " + hx(t)])
    c.validate("misc", "Misc", "Trace_Misc", "Trace_Misc.cfg", big, label="large")


def inbase(v, base):
    if v == 0:
        return "0"
    s = ""
    while v:
        s = DIG[v % base] + s
        v //= base
    return s


def rand_number(rng):
    base = rng.choice([0, 0, 10, 10, 16, 8, 2, 36, rng.randint(2, 36), 1, 37, -1])
    edge = rng.choice([0, 1, 2**31, 2**32, 2**63, 2**64, 10**18, 2**65, 2**128, rng.getrandbits(rng.randint(1, 80))])
    v = max(0, edge + rng.choice([-2, -1, 0, 0, 1, 2]))
    b = base if 2 <= base <= 36 else rng.choice([8, 10, 16])
    s = inbase(v, b)
    if b == 16 and rng.random() < 0.5:
        s = rng.choice(["0x", "0X"]) + s
    elif b == 8 and base == 0 and rng.random() < 0.9:
        s = "0" + s
    if rng.random() < 0.2:
        s = "0" * rng.randint(1, 30) + s
    if rng.random() < 0.3:
        s = s.upper()
    s = rng.choice(["", "", "", "-", "-", "+", "--", "+-", "- "]) + s
    if rng.random() < 0.15:
        i = rng.randrange(len(s) + 1)
        s = s[:i] + rng.choice([" ", "-", "+", "x", "z", "_", "\x0b", ".", "\x80", "\x01", "0", ","]) + s[i:]
    if rng.random() < 0.05:
        s = rng.choice(["", " ", "\t\n", "+", "-", "0x", "-0x", "0", "-0", "+0", "\x0b", "\x0b1", "1\x0b", " \x0b 1", "\x0b-1", "00", "0x0x1"])
    if rng.random() < 0.4:
        s = rng.choice(["", " ", "  ", "\t", "\n\r\f "]) + s + rng.choice(["", " ", "\n", " \t\r\f", "\x0b"])
    return "parse %d %s" % (base, hx([ord(x) & 255 for x in s]))


def c20(c):
    c.validate("misc", "Misc", "Trace_Misc", "Trace_Misc.cfg", chunks(graph(c, "MC_Parse", "misc") + ["parse 0 NULL", "parse 10 NULL"], 100), label="graph")
    ops = [rand_number(c.rng) for _ in range(6000 if not c.thorough else 120000)]
    c.validate("misc", "Misc", "Trace_Misc", "Trace_Misc.cfg", chunks(ops, 100), label="random")


def rand_blocks(rng):
    k = rng.choice(["pair", "pair", "pair", "overlap", "concat", "conv"])
    L = lambda: rng.choice([0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 24, 31, 33, rng.randint(0, 80)] + ([255, 256, 257, 1500] if rng.random() < 0.03 else []))
    if k == "pair":
        a = rand_bytes(rng, L())
        b = rng.choice([lambda: rand_bytes(rng, L()), lambda: a[:rng.randint(0, len(a))], lambda: a[rng.randint(0, len(a)):], lambda: list(a),
                        lambda: a + rand_bytes(rng, rng.randint(0, 2)), lambda: rand_bytes(rng, 1) + a])()
        if b and rng.random() < 0.3:
            b = list(b)
            b[rng.choice([0, -1, rng.randrange(len(b))])] ^= 1 << rng.randrange(8)
        s, t = hx(a), hx(b)
        if rng.random() < 0.03:
            s = "-1"
        if rng.random() < 0.03:
            t = "-1"
        return "pair %s %s" % (s, t) if rng.random() < 0.7 else "pair %s %s" % (t, s)
    if k == "overlap":
        a = [rng.choice([0, 1]) for _ in range(L())]
        i = rng.randint(0, len(a))
        return "overlap %s %d %d" % (hx(a), i, rng.randint(0, len(a) - i))
    if k == "concat":
        return " ".join(["concat"] + [hx(rand_bytes(rng, rng.choice([0, 0, 1, L()]))) for _ in range(rng.choice([0, 1, 2, 3, 5, 8, 8, rng.randint(0, 60)]))])
    return "conv " + hx(rand_bytes(rng, L()))


def c21(c):
    c.validate("misc", "Misc", "Trace_Misc", "Trace_Misc.cfg", chunks(graph(c, "MC_Blocks", "misc") + ["null"], 60), label="graph")
    ops = [rand_blocks(c.rng) for _ in range(4000 if not c.thorough else 80000)]
    c.validate("misc", "Misc", "Trace_Misc", "Trace_Misc.cfg", chunks(ops, 60), label="random")
    c.validate("misc", "Misc", "Trace_Misc", "Trace_Misc.cfg", large(c), label="large")


def large(c):
    """More bytes than fit in 16 bits, and differences in what's past those"""
    rng, out = c.rng, []
    for n in [32768, 65535, 65536, 65537, 70000] + ([131072, 150000] if c.thorough else []):
        a = rand_bytes(rng, n)
        other = lambda i: a[:i] + [a[i] ^ 1] + a[i + 1:]
        out += [["pair %s %s" % (hx(a), hx(b))] for b in
                (a, other(n - 1), other(0), a[:n - 1], a[1:], a[:n - 3] + [a[n - 3] ^ 1], [a[1] ^ 1] + a[2:])]
        out += [["pair %s %s" % (hx(a[:n - 65536]), hx(a))] for _ in range(1 if n > 65536 else 0)]
        out += [["conv " + hx(a)], ["concat %s %s %s" % (hx(a[:5]), hx(a), hx(a[:n // 2]))]]
    return out


CHECKS = {"C19": c19, "C20": c20, "C21": c21}
