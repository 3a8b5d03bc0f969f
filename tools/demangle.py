"""Rust v0 demangling through the toolchain's llvm-cxxfilt, else a readable approximation."""
import re, functools


class P:
    def __init__(self, s):
        self.s = s
        self.i = 0
        self.depth = 0

    def peek(self):
        return self.s[self.i] if self.i < len(self.s) else ""

    def eat(self, c):
        if self.peek() == c:
            self.i += 1
            return True
        return False

    def base62(self):
        if self.eat("_"):
            return 0
        x = 0
        while not self.eat("_"):
            c = self.s[self.i]
            self.i += 1
            x = x * 62 + "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ".index(c)
        return x + 1

    def ident(self):
        dis = 0
        if self.eat("s"):
            dis = self.base62() + 1
        self.eat("u")
        n = ""
        while self.peek().isdigit():
            n += self.s[self.i]
            self.i += 1
            if n == "0":
                break
        self.eat("_")
        k = int(n or "0")
        r = self.s[self.i:self.i + k]
        self.i += k
        return r, dis

    def backref(self, f):
        p = self.i - 1
        b = self.base62()
        if b >= p:
            raise ValueError
        save, self.i = self.i, b
        self.depth += 1
        if self.depth > 200:
            raise ValueError
        r = f()
        self.depth -= 1
        self.i = save
        return r

    def path(self):
        c = self.peek()
        self.i += 1
        if c == "C":
            return self.ident()[0]
        if c in "MX":
            if self.eat("s"):
                self.base62()
            self.path()
            t = self.ty()
            if c == "M":
                return "<%s>" % t
            return "<%s as %s>" % (t, self.path())
        if c == "Y":
            t = self.ty()
            return "<%s as %s>" % (t, self.path())
        if c == "N":
            ns = self.s[self.i]
            self.i += 1
            p = self.path()
            n, d = self.ident()
            if ns == "C":
                return p + "::{closure#%d}" % d
            if ns == "S":
                return p + "::{shim:%s#%d}" % (n, d)
            return p + ("::" + n if n else "")
        if c == "I":
            p = self.path()
            a = []
            while not self.eat("E"):
                a.append(self.arg())
            return "%s<%s>" % (p, ", ".join(a))
        if c == "B":
            return self.backref(self.path)
        raise ValueError(c)

    def arg(self):
        if self.eat("L"):
            self.base62()
            return "'_"
        if self.eat("K"):
            return self.const()
        return self.ty()

    def const(self):
        if self.eat("B"):
            return self.backref(self.const)
        if self.eat("p"):
            return "_"
        self.ty()
        r = ""
        while not self.eat("_"):
            r += self.s[self.i]
            self.i += 1
        return r

    B = dict(a="i8", b="bool", c="char", d="f64", e="str", f="f32", h="u8", i="isize", j="usize", l="i32", m="u32", n="i128", o="u128", s="i16", t="u16", u="()", v="...", x="i64", y="u64", z="!", p="_")

    def ty(self):
        c = self.peek()
        if c in self.B:
            self.i += 1
            return self.B[c]
        if c in "CMXYNI":
            return self.path()
        self.i += 1
        if c == "A":
            t = self.ty()
            return "[%s; %s]" % (t, self.const())
        if c == "S":
            return "[%s]" % self.ty()
        if c == "T":
            a = []
            while not self.eat("E"):
                a.append(self.ty())
            return "(%s)" % ", ".join(a)
        if c in "RQ":
            if self.eat("L"):
                self.base62()
            return ("&" if c == "R" else "&mut ") + self.ty()
        if c == "P":
            return "*const " + self.ty()
        if c == "O":
            return "*mut " + self.ty()
        if c == "F":
            if self.eat("G"):
                self.base62()
            self.eat("U")
            if self.eat("K"):
                if not self.eat("C"):
                    self.ident()
            a = []
            while not self.eat("E"):
                a.append(self.ty())
            return "fn(%s) -> %s" % (", ".join(a), self.ty())
        if c == "D":
            if self.eat("G"):
                self.base62()
            a = []
            while not self.eat("E"):
                p = self.path()
                while self.eat("p"):
                    n = self.ident()[0]
                    p += "<%s=%s>" % (n, self.ty())
                a.append(p)
            if self.eat("L"):
                self.base62()
            return "dyn " + "+".join(a)
        if c == "B":
            return self.backref(self.ty)
        raise ValueError(c)


@functools.lru_cache(None)
def demangle(n):
    m = re.match(r"_R(.*?)(\.[0-9A-Za-z_.]+)?$", n)
    if not m:
        return n
    try:
        # back references count from after "_R"
        p = P(m.group(1))
        return p.path()
    except (ValueError, IndexError):
        return n
