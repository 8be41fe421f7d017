"""C10: secondary validators."""
import base64, time, zlib
from sgen import *

LEVEL = "model_checking"
ASSUMPTIONS = ["Expiry times in tokens are past when the cases are made, or at least 30 minutes ahead.",
               "IBAN country formats: DE, BE, GB, NL, FR, NO and unknown prefixes."]

WHOLE = "(?s:\\A.+\\z)"
B62 = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"


def dec(rng, n):
    return "".join(rng.choice("0123456789") for _ in range(n))


def spread(rng, s, seps):
    return "".join(c + (rng.choice(seps) if rng.random() < .2 else "") for c in s)


def luhn(rng):
    n = rng.randint(1, 19)
    d = dec(rng, n)
    for c in "0123456789":
        t = d + c
        s = sum((int(x) if k % 2 == 0 else (2 * int(x) - 9 if int(x) > 4 else 2 * int(x)))
                for k, x in enumerate(reversed(t)))
        if s % 10 == 0:
            d = t
            break
    return damage(rng, d)


def damage(rng, s):
    x = rng.random()
    if x < .5 or not s:
        return s
    i = rng.randrange(len(s))
    if x < .75:                                   # one character changed
        return s[:i] + rng.choice("0123456789" if s[i].isdigit() else "AZxX0") + s[i + 1:]
    if x < .83:                                   # neighbours exchanged
        return s[:i] + s[i:i + 2][::-1] + s[i + 2:]
    if x < .88:
        return s[:i] + s[i + 1:]
    if x < .93:
        return s[:i] + rng.choice("0123456789") + s[i:]
    return s[:i] + rng.choice("é٣x-² 中") + s[i + 1:]


def chinese(rng):
    d = dec(rng, 17)
    co = [7, 9, 10, 5, 8, 4, 2, 1, 6, 3, 7, 9, 10, 5, 8, 4, 2]
    w = (12 - sum(a * int(b) for a, b in zip(co, d)) % 11) % 11
    return damage(rng, d + (rng.choice("Xx") if w == 10 else str(w)))


def nhs(rng):
    while True:
        d = dec(rng, 9)
        c = (11 - sum((10 - k) * int(x) for k, x in enumerate(d)) % 11) % 11
        if c < 10 or rng.random() < .2:
            d = damage(rng, d + str(c % 10))
            if rng.random() < .1:                # leading or trailing digits beyond ten
                d = rng.choice(["0", "1", "00"]) + d
            return spread(rng, d, " -") if rng.random() < .4 else d


def nir(rng):
    d = rng.choice("12") + dec(rng, 12)
    if rng.random() < .3:
        d = "0" * rng.randint(1, 12) + d
        d = d[:13]
    k = 97 - int(d) % 97
    d = damage(rng, d + f"{k:02d}")
    if rng.random() < .08:
        d = d[:13] + f"{int(d[:13]) % 97:02d}" if d[:13].isdecimal() and d.isascii() else d
    return spread(rng, d, " -.") if rng.random() < .4 else d


def b62(n):
    s = ""
    while n:
        s = B62[n % 62] + s
        n //= 62
    return s


def github(rng):
    for _ in range(200):
        body = "".join(rng.choice(B62) for _ in range(rng.choice([1, 2, 5, 30, 30, 30])))
        c = b62(zlib.crc32(body.encode()))
        if rng.random() < .5 or len(c) < 6:
            break
    t = rng.choice(["ghp_", "gho_", "ghs_", "github_pat_11AAA_", "_", "ghp_é_"])
    s = rng.random()
    if s < .6:
        return t + body + c.rjust(6, "0")
    if s < .7:
        return t + body + c                       # not padded
    if s < .75:
        return t + body + c[:-1] + rng.choice(B62)
    if s < .8:
        return t[:-1] + body + c.rjust(6, "0")
    if s < .85:
        return t + c.rjust(6, "0")[-rng.randint(0, 6):]
    return damage(rng, t + body + c.rjust(6, "0"))


IB = {"DE": "n" * 18, "BE": "n" * 12, "GB": "a" * 4 + "n" * 14, "NL": "a" * 4 + "n" * 10,
      "FR": "n" * 10 + "c" * 11 + "n" * 2, "NO": "n" * 11}


def iban(rng):
    cc = rng.choice(list(IB))
    f = IB[cc]
    body = "".join(rng.choice("0123456789") if t == "n" else rng.choice("ABCXYZ") if t == "a"
                   else rng.choice("0123456789ABCXYZ") for t in f)
    num = int("".join(str(int(c, 36)) for c in body + cc + "00"))
    k = 98 - num % 97
    s = rng.random()
    if s < .08:
        k += 1
    if s > .92 and k >= 2:
        k -= 1
    t = cc + f"{k:02d}" + body
    if rng.random() < .05:
        t = rng.choice(["ZZ", "de", "Q1"]) + t[2:]
    if rng.random() < .05:
        t = rng.choice([t.lower(), t[:4] + t[4:].lower(), t[:1] + t[1:].lower(), t[:4] + t[4:].swapcase(), t[:9] + t[9:].lower()])
    t = damage(rng, t) if rng.random() < .6 else t
    # check digit pairs 00, 01 and 98.. are congruent to legal ones: keep to 02..98
    if t[2:4] in ("00", "01", "99"):
        return iban(rng)
    if rng.random() < .08:                       # letters and digits of other scripts are not ignored, other marks are
        i = rng.randint(0, len(t))
        t = t[:i] + rng.choice("é٣²中—’…\u3000\u00a0") + t[i:]
    return spread(rng, t, " -/") if rng.random() < .4 else t


def b64(b):
    return base64.urlsafe_b64encode(b).decode().rstrip("=")


JH = ['{"alg":"HS256","typ":"JWT"}', '{}', '{"alg":"none"}', '[]', '""', '1', 'null', '{"alg":}', '{', '{"a":1,}', ' { "a" : [1, 2, {"b":null}] } ', '']
JP = ['{}', '{"sub":"1"}', '{"exp":%d}', '{"iat":5,"exp":%d}', '{"exp":"%d"}', '{"exp":%d.5}', '{"exp":-%d}', '{"exp":null}', '{"exp":true}',
      '{"a":{"exp":1}}', '{"exp":%d,"a":[1,{"exp":0}]}', '[{"exp":1}]', '"exp"', 'true', '{"exp":1e3}', '{"exp":%d', 'x', '{"exp": [%d]}',
      '{"exp":1,"exp":%d}', '{"exp":%d,"exp":1}', '{"ex\\"p":1}', '{"Exp":1}', '{"exp":0}', '{"exp":9223372036854775807}',
      '{"exp":9223372036854775808}', '{"exp":18446744073709551616}', '{"exp":-0}', '{"exp":01}', '{"a":"\\u00e9\\n"}', '{"a":"\\x"}', '{"exp" :\n%d }', '{"exp":%d}}']


def jwt(rng):
    def fill(t):
        now = int(time.time())
        e = rng.choice([1, 1500000000, 1577836799, 5000000000, 253402300800, 99999999999]) if rng.random() < .5 else \
            rng.choice([now, now - 1, now - 60, now - 1800, now - 86400, now - 7776000, now + 2000, now + 3600, now + 86400, now + 31536000])
        return t.replace("%d", str(e))
    h = rng.choice(JH[:3]) if rng.random() < .6 else rng.choice(JH)
    p = fill(rng.choice(JP))
    hb, pb = b64(h.encode()), b64(p.encode())
    s = rng.random()
    sig = rng.choice(["", "abc", "a-_b", "!!", "sig"])
    if s < .8:
        return f"{hb}.{pb}.{sig}"
    if s < .84:
        return f"{hb}.{pb}"
    if s < .88:
        return f"{hb}.{pb}.{sig}.x"
    if s < .91:
        return f"{hb}=.{pb}.{sig}"
    if s < .94:                                      # trailing bits that are not zero
        i = rng.randrange(2)
        parts = [hb, pb, sig]
        if parts[i]:
            parts[i] = parts[i][:-1] + rng.choice("AQgwBCDEF_-")
        return ".".join(parts)
    if s < .97:
        return f"{hb}.{pb[:-1]}.{sig}"
    return f"{hb}+.{pb}.{sig}"


GEN = {"luhn": luhn, "chinese": chinese, "nhs": nhs, "nir": nir, "github": github, "iban": iban, "jwt": jwt}
FREE = {"luhn": ["\\d{2,4}", "\\d+", "[0-9 ]{3,}", "\\d{3}"], "chinese": ["\\d{17}[\\dXx]"], "nhs": ["\\d{10}", "\\d{9,11}", "[\\d -]{10,13}"],
        "nir": ["\\d{15}", "\\d{14,16}"], "github": ["[a-z]*_[0-9A-Za-z]{7,}", "\\S+"], "iban": ["[A-Z]{2}\\d{2}[0-9A-Z]+", "[A-Z0-9]{15,30}"],
        "jwt": ["[\\w-]+\\.[\\w-]+\\.[\\w-]*", "\\S+"]}


def cases(rng, n):
    out = []
    kinds = list(GEN)
    for i in range(n):
        v = kinds[i % len(kinds)]
        if rng.random() < .6:
            s = GEN[v](rng)
            if rng.random() < .12:                # marks around it belong to the matched text
                s = rng.choice(["", " ", "\t", "(", "-", "\u00a0", "'"]) + s + rng.choice(["", " ", "\n", ")", ".", "\u3000", "\0"])
            if not s:
                continue
            out.append(scan([regex(WHOLE, action(rng, "nr"), val=v)], [leaf(path("x"), s)]))
        else:
            # several in one text; a refused match must not hide the next one
            s = ""
            for _ in range(rng.randint(1, 3)):
                s += rng.choice(["", " ", "1", "a ", "é"]) + GEN[v](rng)
            rules = [regex(rng.choice(FREE[v]), action(rng, "nr"), val=v)]
            if rng.random() < .2:
                v2 = rng.choice(kinds)
                rules.append(regex(rng.choice(FREE[v2]), action(rng, "nr"), val=v2))
            if rng.random() < .2:
                k = kw(12, ["id"]) if rng.random() < .5 else kw(12, [], ["id"])
                rules[0]["kw"] = k
                s = rng.choice(["id ", "id: ", "xid ", ""]) + s
            out.append(scan(rules, [leaf(path("x"), s[:110])]))
    return out


def far(rng, n):
    """Far into a long string, among many that are refused."""
    out = []
    for i in range(n):
        v = list(GEN)[i % len(GEN)]
        s = " " * rng.choice([1100, 4200]) + GEN[v](rng)[:60] + " " + GEN[v](rng)[:60]
        out.append(scan([regex(FREE[v][0], action(rng, "nr"), val=v)], [leaf(path("x"), s)]))
    return out


def run(ctx):
    from mixed import mixed
    ctx.suite("everything at once", "TraceScan.tla", mixed(ctx.rand("everything at once"), ctx.n(1500, 20000)), nontrivial=has_match)
    ctx.suite("far", "TraceScan.tla", far(ctx.rand("far"), ctx.n(21, 140)))
    ctx.suite("random", "TraceScan.tla", cases(ctx.rand("random"), ctx.n(4000, 40000)), nontrivial=has_match)
