"""C14, C15: multi-byte numbers and TLV encoding"""
import vf

DRIVERS = {"datapack": {}}


def hx(b):
    return bytes(b).hex() or "-"


def validate(c, scens, label):
    c.validate("datapack", "DataPack", "Trace_DataPack", "Trace_DataPack.cfg", scens, label=label)


def rand_num(rng):
    k = rng.random()
    if k < 0.5:
        return (rng.choice([1, -1]) * (1 << rng.randint(0, 64)) + rng.randint(-3, 3)) % 2**64
    return rng.getrandbits(rng.randint(1, 64)) * rng.choice([1, -1]) % 2**64


def mbn(v, n=0):
    b = []
    while v or not b or len(b) < n:
        b.append(v & 0x7f)
        v >>= 7
    b.reverse()
    return [x | 0x80 for x in b[:-1]] + b[-1:]


def rand_bytes(rng):
    """Usually close to a valid encoding"""
    k = rng.random()
    if k < 0.2:
        return [rng.choice([0, 1, 63, 64, 127, 128, 129, 191, 192, 254, 255, rng.randint(0, 255)]) for _ in range(rng.randint(0, 14))]
    n = rng.randint(1, 12)
    b = [0x80 | rng.choice([0, 127, 64, 63, 1, 126, rng.randint(0, 127)]) for _ in range(n - 1)] + [rng.randint(0, 127)]
    if rng.random() < 0.6 and n > 1:
        b[0] = rng.choice([0x80, 0xff, 0x81, 0xfe, 0xc0, 0xbf])
    if rng.random() < 0.15:
        b.pop()
    if rng.random() < 0.3:
        b += [rng.randint(0, 255) for _ in range(rng.randint(1, 3))]
    return b


def c14(c):
    r = c.mc("DataPack", "MC_Mbn", "MC_Mbn_%s.cfg" % c.tier, edges=True)
    ops = vf.hexlines([list(map(str, e[1])) for e in r.edges])
    validate(c, [["null"] + ops[i:i + 200] for i in range(0, len(ops), 200)], "enumerated")
    rng = c.rng
    scens = []
    for _ in range(150 if not c.thorough else 4000):
        s = []
        for _ in range(40):
            s.append("enc " + hx(rand_num(rng).to_bytes(8, "little")) if rng.random() < 0.25 else "dec " + hx(rand_bytes(rng)))
        scens.append(s)
    validate(c, scens, "random")


TAGS = [1, 2, 3, 127, 128, 129, 16383, 16384, 2**31 - 2, 2**31 - 1]


def rand_tlv(rng):
    few = rng.sample(TAGS, rng.choice([1, 2, 4]))
    clean = rng.random() < 0.5
    out = []
    for _ in range(rng.choice([2, 6, 12])):
        k = rng.choices(["put", "get", "junk", "tlvs", "size"], [14, 10, 0 if clean else 3, 8, 2])[0]
        tag = lambda: rng.choice(few) if rng.random() < 0.8 else rng.choice(TAGS + [rng.randint(1, 2**31 - 1)])
        if k == "put":
            n = rng.choice([0, 0, 1, 2, 3, 10, 126, 127, 128, 129, 300] + ([16383, 16384] if rng.random() < 0.02 else []))
            out.append("put %d %s" % (tag(), hx(rng.randbytes(n))))
        elif k == "junk":
            m = rng.random()
            if m < 0.5:   # an entry with suspicious tag, length or amount of data
                t = rng.choice([0, 1, tag(), 2**31, 2**32, 2**32 + 1, 2**63, 2**64 - 1])
                n = rng.choice([0, 1, 2, 5, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**32 + 1, 2**63 - 1, 2**63, 2**64 - 1, 2**64 - 2, 2**64 - 10])
                b = mbn(t, rng.choice([0, 0, 2, 10])) + mbn(n, rng.choice([0, 0, 3, 10]))
                b += [rng.randint(0, 3) for _ in range(rng.choice([min(n, 40), max(0, min(n, 40) - 1), rng.randint(0, 3)]))]
                if rng.random() < 0.15:
                    b = b[:rng.randint(0, len(b))]
            else:
                b = [rng.choice([0, 1, 2, 3, rng.randint(0, 255)]) for _ in range(rng.randint(1, 20))]
            out.append("junk " + hx(b))
        elif k == "tlvs":
            m = rng.random()
            if m < 0.7:
                t = [tag() for _ in range(rng.randint(0, 4))]
            else:
                t = list(range(100, 100 + rng.choice([28, 29, 30, 31, 32, 33, 40])))
                for x in few:
                    t[rng.choice([0, rng.randint(0, len(t) - 1), min(30, len(t) - 1), min(31, len(t) - 1)])] = x
            out.append("tlvs %d %s" % (rng.choice([0, 1]), " ".join(map(str, t))))
        elif k == "size":
            out.append("size %d %d" % (tag(), rng.choice([0, 127, 128, 2**14, 2**21, 2**28, 2**31, 2**32 - 20, rng.randint(0, 2**31)])))
        else:
            out.append("get")
    return [o.strip() for o in out + ["get"] * 3 + ["tlvs 1 " + " ".join(map(str, few))]]


def huge_tlv(rng):
    """Entries whose size takes more bits than usual"""
    out = []
    for _ in range(4):
        out.append("put %d %s" % (rng.choice(TAGS), hx(rng.randbytes(rng.choice([3, 16383, 32767, 32768, 65535, 65536, 65537, 70000])))))
    if rng.random() < 0.5:
        out.append("junk " + hx(mbn(7) + mbn(70000) + list(rng.randbytes(65000))))
    return out + ["tlvs 0 1 2 127", "tlvs 1 2 1 16384 2147483647"] + ["get"] * 6


def c15(c):
    r = c.mc("DataPack", "MC_Tlv", "MC_Tlv_%s.cfg" % c.tier, edges=True)
    validate(c, [vf.hexlines(w) for w in vf.walks(r, maxlen=60, rng=c.rng)], "graph")
    if c.thorough:
        r = c.mc("DataPack", "MC_Tlv", "MC_Tlv_wide.cfg", edges=True)
        validate(c, [vf.hexlines(w) for w in vf.walks(r, maxlen=60, rng=c.rng)], "wide")
    validate(c, [rand_tlv(c.rng) for _ in range(1500 if not c.thorough else 30000)] +
             [huge_tlv(c.rng) for _ in range(4 if not c.thorough else 40)], "random")


CHECKS = {"C14": c14, "C15": c15}
