"""Random patterns of the SDS dialect together with strings likely to match them."""

ALPHA = "aabbcABC12_- .\n\t"
UNI = "éÉ中😀δΔ€éÉ中😀\u00a0\u0085\u2028"
WSX = "\u00a0\u0085\u2028"           # white space the x flag of the engine would ignore
META = r"\.+*?()|[]{}^$"


class N:
    def __init__(self, text, sample, nullable=False, atom=True, prec=0):
        self.t, self.s, self.nullable, self.atom = text, sample, nullable, atom


class Gen:
    def __init__(self, rng, uni=0.08, flags=True, anchors=True, xflag=True):
        self.r, self.uni, self.flags, self.anchors, self.xflag = rng, uni, flags, anchors, xflag
        self.xon = False
        self.names = 0

    def ch(self):
        return self.r.choice(UNI) if self.r.random() < self.uni else self.r.choice(ALPHA)

    def lit_text(self, c):
        r = self.r
        k = r.random()
        if c == "\n":
            return r.choice(["\\n", "\\n", "\\x0A", "\\x{a}"]) if self.xon or k < .8 else "\n"
        if c == "\t":
            return r.choice(["\\t", "\\x09"]) if self.xon or k < .8 else "\t"
        if c == " ":
            return r.choice(["\\ ", "\\x20", "[ ]"]) if self.xon else " "
        if c in WSX:
            return r.choice(["\\x{%x}" % ord(c), "\\" + c, "\\Q" + c + "\\E"]) if self.xon or k < .3 else c
        if c in META:
            return "\\" + c
        if k < .05:
            return "\\x{%x}" % ord(c)
        if k < .08 and ord(c) < 128:
            return "\\x%02x" % ord(c)
        if k < .11 and c in "-_":
            return "\\" + c
        return c

    def lit(self):
        c = self.ch()
        return N(self.lit_text(c), lambda: c)

    def cls_item(self):
        r = self.r
        k = r.random()
        if k < .35:
            c = self.ch()
            t = {"\n": "\\n", "\t": "\\t"}.get(c, c)
            if c == "-":
                t = "\\-"
            if self.xon and c == " ":
                t = "\\ "
            return t, lambda: c
        if k < .65:
            a, b = r.choice([("a", "c"), ("a", "z"), ("A", "C"), ("0", "9"), ("1", "2"), ("b", "b"), (" ", "-"),
                             ("A", "z"), ("a", "é"), ("é", "中"), ("_", "b"), ("!", "/")])
            if self.xon and a == " ":
                a = "\\x20"
                return f"{a}-{b}", lambda: " "
            return f"{a}-{b}", lambda: r.choice([a, b])
        if k < .83:
            t, ex = r.choice([("\\d", "12"), ("\\D", "a- é"), ("\\w", "a1_"), ("\\W", "- é\n"), ("\\s", " \t\n"),
                              ("\\S", "a-é"), ("\\h", " \t"), ("\\H", "a\n"), ("\\v", "\n"), ("\\V", "a \t")])
            return t, lambda: r.choice(ex)
        if k < .95:
            neg = r.random() < .25
            n, ex = r.choice([("alnum", "a1B"), ("alpha", "aB"), ("ascii", "a "), ("blank", " \t"), ("cntrl", "\n\t"),
                              ("digit", "12"), ("graph", "a-"), ("lower", "ab"), ("print", "a "), ("punct", "-._"),
                              ("space", " \n"), ("upper", "AB"), ("word", "a_1"), ("xdigit", "a1C")])
            ex = ex if not neg else "é中 a"
            return f"[:{'^' if neg else ''}{n}:]", lambda: r.choice(ex)
        t, ex = r.choice([("\\p{L}", "aéδ中"), ("\\P{L}", "1 "), ("\\p{Lu}", "AÉΔ"), ("\\p{N}", "1"), ("\\p{Greek}", "δΔ"),
                          ("\\p{Sc}", "€")])
        return t, lambda: r.choice(ex)

    def cls(self):
        r = self.r
        items = [self.cls_item() for _ in range(r.choice([1, 1, 2, 2, 3]))]
        neg = r.random() < .25
        t = "".join(i[0] for i in items)
        # a leading ^ or ] or an accidental range/posix start would change the meaning
        if t.startswith("^") or t.startswith("]"):
            t = "\\" + t
        pre = "]" if r.random() < .04 else ""
        suf = "-" if r.random() < .06 else ""
        q = ""
        if r.random() < .04:
            q = "\\Qa.b\\E"
        t = "[" + ("^" if neg else "") + pre + t + q + suf + "]"
        return N(t, (lambda: self.ch()) if neg else r.choice(items)[1])

    def short(self):
        r = self.r
        t, ex = r.choice([("\\d", "12"), ("\\D", "a- "), ("\\w", "a1_"), ("\\W", "- \né"), ("\\s", " \t\n"),
                          ("\\S", "a-"), ("\\h", " \t"), ("\\H", "a\n"), (".", "ab1é"), (".", "a ")] +
                         [("\\p{L}", "aé"), ("\\P{N}", "a "), ("\\p{Nd}", "12"), ("\\p{Ll}", "aδ")])
        return N(t, lambda: r.choice(ex))

    def anchor(self):
        r = self.r
        t, ex = r.choice([("\\b", ""), ("\\B", ""), ("^", ""), ("$", "\n"), ("\\A", ""), ("\\z", ""), ("\\Z", "\n"),
                          ("$", ""), ("\\b", ""), ("\\b", "")])
        if r.random() < .08:                     # a quantified assertion
            q = r.choice(["?", "??", "{1}", "{0,1}", "{2}"])
            return N(t + q, lambda: r.choice(["", ex]), nullable=True)
        return N(t, lambda: ex, nullable=True)

    def quote(self):
        r = self.r
        cs = "".join(r.choice("ab.+*([ $\\\\") for _ in range(r.randint(1, 3)))
        if r.random() < .1:
            cs += r.choice(WSX)
        if "\\E" in cs + "E" and "\\E" in cs:
            cs = "a"
        return N("\\Q" + cs + "\\E", lambda: cs)

    def group(self, d):
        r = self.r
        k = r.random()
        if k < .45:
            xon = self.xon
            e = self.expr(d - 1)
            self.xon = xon
            return N("(" + e.t + ")", e.s, e.nullable)
        if k < .6 or not self.flags:
            xon = self.xon
            e = self.expr(d - 1)
            self.xon = xon
            return N("(?:" + e.t + ")", e.s, e.nullable)
        if k < .7:
            self.names += 1
            xon = self.xon
            nm = f"n{self.names}"
            e = self.expr(d - 1)
            self.xon = xon
            o, c = r.choice([("<", ">"), ("P<", ">"), ("'", "'")])
            return N(f"(?{o}{nm}{c}{e.t})", e.s, e.nullable)
        f, x = self.flagset()
        xon = self.xon
        if x is not None:
            self.xon = x
        e = self.expr(d - 1)
        self.xon = xon
        return N(f"(?{f}:{e.t})", self.casemix(f, e.s), e.nullable)

    def casemix(self, f, s):
        if "i" not in f.split("-")[0] or self.r.random() < .1:
            return s
        return lambda: "".join(c.swapcase() if self.r.random() < .4 and len(c.swapcase()) == 1 else c for c in s())

    def flagset(self):
        r = self.r
        fs = [c for c in "ims" if r.random() < .4]
        rem = [c for c in "imsx" if r.random() < .12]       # a flag may be both set and cleared
        x = None
        if self.xflag and r.random() < .12:
            fs.append("x")
            rem = [c for c in rem if c != "x"]
            x = True
        elif "x" in rem:
            x = False
        if not fs and not rem:
            fs = ["i"]
        if r.random() < .05:
            fs.append(r.choice(fs or ["s"]))
        r.shuffle(fs)
        r.shuffle(rem)
        return "".join(fs) + ("-" + "".join(rem) if rem else ""), x

    def atom(self, d):
        k = self.r.random()
        if d > 0 and k < .22:
            return self.group(d)
        if k < .55:
            return self.lit()
        if k < .74:
            return self.cls()
        if k < .90:
            return self.short()
        if k < .93:
            return self.quote()
        if self.anchors:
            return self.anchor()
        return self.lit()

    def quant(self, a):
        r = self.r
        if a.nullable or r.random() < .68:
            # a bare zero width assertion or a nullable group is never repeated here
            return a
        lo, hi, t = r.choice([(0, 3, "*"), (1, 3, "+"), (0, 1, "?"), (2, 2, "{2}"), (1, 3, "{1,3}"), (2, 4, "{2,}"),
                              (0, 2, "{0,2}"), (1, 1, "{1}"), (3, 3, "{3}")])
        lazy = r.random() < .25
        s = a.s
        if a.t.startswith("\\Q"):
            body = a.t[2:-2]
            return N(a.t + t + ("?" if lazy else ""),
                     lambda: body[:-1] + body[-1] * r.randint(lo, hi), nullable=(lo == 0 and len(body) == 1))
        return N(a.t + t + ("?" if lazy else ""), lambda: "".join(s() for _ in range(r.randint(lo, hi))), nullable=lo == 0)

    def concat(self, d):
        r = self.r
        n = r.choice([1, 2, 2, 3, 3, 4])
        out = []
        for _ in range(n):
            if self.flags and r.random() < .06:
                f, x = self.flagset()
                if x is not None:
                    self.xon = x
                out.append(N(f"(?{f})", lambda: "", nullable=True))
                continue
            if self.xon and r.random() < .2:
                out.append(N(" ", lambda: "", nullable=True))
                continue
            out.append(self.quant(self.atom(d)))
        return N("".join(x.t for x in out), lambda: "".join(x.s() for x in out), all(x.nullable for x in out))

    def expr(self, d):
        r = self.r
        n = r.choice([1, 1, 1, 1, 2, 2, 3])
        bs = [self.concat(d) for _ in range(n)]
        if r.random() < .02:
            bs.insert(r.randrange(len(bs) + 1), N("", lambda: "", True))
        return N("|".join(b.t for b in bs), lambda: r.choice(bs).s(), any(b.nullable for b in bs))

    def top(self):
        self.xon = False
        self.names = 0
        return self.expr(2)

    def inputs(self, node, n):
        r = self.r
        out = []
        for _ in range(n):
            parts = []
            for _ in range(r.randint(1, 3)):
                k = r.random()
                if k < .65:
                    s = node.s()
                    if r.random() < .3:
                        s = s.swapcase() if len(s.swapcase()) == len(s) else s
                    if r.random() < .25 and s:
                        i = r.randrange(len(s))
                        s = s[:i] + r.choice([self.ch(), "", self.ch() + s[i]]) + s[i + 1:]
                    parts.append(s)
                else:
                    parts.append("".join(self.ch() for _ in range(r.randint(0, 3))))
            out.append("".join(parts)[:24])
        return out
