"""Parser for the subset of textual LLVM IR that rustc emits for this crate."""
import re, struct

TOK = re.compile(r'''
   c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*"      # byte string
 | "(?:[^"\\]|\\.)*"                          # string
 | [%@]"(?:[^"\\]|\\.)*" | [%@][-a-zA-Z$._0-9]+
 | !\{ | ![-a-zA-Z$._0-9]* | \#\d+
 | f0x[0-9A-Fa-f]+ | 0x[0-9A-Fa-f]+ | [-+]?\d+\.\d*(?:[eE][-+]?\d+)? | [-+]?\d+ | [-+](?:inf|qnan|nan)\b
 | [a-zA-Z_][-a-zA-Z0-9_.]*
 | \.\.\.
 | [()\[\]{}<>,=*:]
''', re.X)


class Unsupported(Exception):
    pass


# ---- types: ('i',w) ('f',64|32) ('ptr',) ('void',) ('arr',n,t) ('struct',[t],packed) ('vec',n,t) ('label',) ('metadata',)
I1, I64, PTR, VOID, F64 = ("i", 1), ("i", 64), ("ptr",), ("void",), ("f", 64)


def size(t):
    k = t[0]
    if k == "i":
        return max(1, (t[1] + 7) // 8)
    if k == "f":
        return t[1] // 8
    if k == "ptr":
        return 8
    if k in ("arr", "vec"):
        return t[1] * size(t[2])
    if k == "struct":
        o = 0
        for f in t[1]:
            if not t[2]:
                a = align(f)
                o = (o + a - 1) // a * a
            o += size(f)
        if not t[2] and t[1]:
            a = max(align(f) for f in t[1])
            o = (o + a - 1) // a * a
        return o
    raise Unsupported("size of %r" % (t,))


def align(t):
    if t[0] == "arr":
        return align(t[2])
    if t[0] == "struct":
        return 1 if t[2] or not t[1] else max(align(f) for f in t[1])
    return min(16, size(t))


def field_off(t, i):
    o = 0
    for k, f in enumerate(t[1]):
        if not t[2]:
            a = align(f)
            o = (o + a - 1) // a * a
        if k == i:
            return o, f
        o += size(f)
    raise Unsupported("field")


class P:
    """token stream over one line (or a joined multi-line instruction)"""

    def __init__(self, text, named):
        self.t = TOK.findall(text)
        self.i = 0
        self.named = named
        self.text = text

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x:
            raise Unsupported("expected %s got %s in %s" % (x, y, self.text[:200]))

    def type(self):
        x = self.next()
        if x == "ptr":
            t = PTR
        elif x == "void":
            t = VOID
        elif x == "double":
            t = F64
        elif x == "float":
            t = ("f", 32)
        elif x == "label":
            t = ("label",)
        elif x == "metadata":
            t = ("metadata",)
        elif re.fullmatch(r"i\d+", x):
            t = ("i", int(x[1:]))
        elif x == "[":
            n = int(self.next())
            self.expect("x")
            e = self.type()
            self.expect("]")
            t = ("arr", n, e)
        elif x == "<":
            if self.peek() == "{":
                self.next()
                fs = []
                while not self.accept("}"):
                    fs.append(self.type())
                    self.accept(",")
                self.expect(">")
                t = ("struct", tuple(fs), True)
            else:
                n = int(self.next())
                self.expect("x")
                e = self.type()
                self.expect(">")
                t = ("vec", n, e)
        elif x == "{":
            fs = []
            while not self.accept("}"):
                fs.append(self.type())
                self.accept(",")
            t = ("struct", tuple(fs), False)
        elif x[0] == "%" and x in self.named:
            t = self.named[x]
        else:
            raise Unsupported("type %s in %s" % (x, self.text[:200]))
        return t

    # value operand -> ('r',name) register, ('c',pyvalue) constant, ('g',name,off) global, ('undef',) ...
    def value(self, t):
        x = self.next()
        if x[0] == "%":
            return ("r", x)
        if x[0] == "@":
            return ("g", x, 0)
        if x in ("undef", "poison"):
            return ("undef",)
        if x == "true":
            return ("c", 1)
        if x == "false":
            return ("c", 0)
        if x == "null":
            return ("c", 0)
        if x == "zeroinitializer":
            return ("zero",)
        if x == "getelementptr":
            while self.peek() in ("inbounds", "nuw", "nusw"):
                self.next()
            if self.peek() == "inrange":
                self.skip_paren()
            self.expect("(")
            et = self.type()
            self.expect(",")
            bt = self.type()
            b = self.value(bt)
            idx = []
            while self.accept(","):
                it = self.type()
                v = self.value(it)
                idx.append(v[1])
            self.expect(")")
            off = const_gep(et, idx)
            if b[0] == "g":
                return ("g", b[1], b[2] + off)
            return ("c", b[1] + off)
        if x in ("ptrtoint", "inttoptr", "bitcast"):
            self.expect("(")
            ft = self.type()
            v = self.value(ft)
            self.expect("to")
            self.type()
            self.expect(")")
            return v
        if t[0] == "f":
            return ("c", parse_float(x, t))
        if t[0] == "i":
            return ("c", int(x) & ((1 << t[1]) - 1))
        if t[0] == "metadata":
            return ("undef",)
        if t[0] == "struct" and x in ("{", "<"):
            if x == "<":
                self.expect("{")
            vs = []
            while not self.accept("}"):
                ft = self.type()
                vs.append(self.value(ft))
                self.accept(",")
            if x == "<":
                self.expect(">")
            return ("agg", vs)
        if t[0] == "arr" and x == "[":
            vs = []
            while not self.accept("]"):
                ft = self.type()
                vs.append(self.value(ft))
                self.accept(",")
            return ("agg", vs)
        if x.startswith('c"'):
            return ("bytes", cbytes(x))
        raise Unsupported("value %s in %s" % (x, self.text[:200]))

    def skip_paren(self):
        """skip an attribute word and an optional (...) after it"""
        self.next()
        if self.peek() == "(":
            d = 0
            while True:
                y = self.next()
                if y == "(":
                    d += 1
                elif y == ")":
                    d -= 1
                    if d == 0:
                        break

    ATTR_NUM = {"align"}

    def skip_attrs(self):
        """skip parameter/return attributes"""
        while True:
            x = self.peek()
            if x is None:
                return
            if x == "align" and re.fullmatch(r"\d+", self.peek(1) or ""):
                self.next()
                self.next()
                continue
            if x.startswith('"') or x.startswith("#"):
                self.next()
                if self.peek() == "=":
                    self.next()
                    self.next()
                continue
            if re.fullmatch(r"[a-z_][a-z_0-9.]*", x) and x not in TYPEWORDS and x not in VALWORDS and \
               not re.fullmatch(r"i\d+", x):
                self.skip_paren()
                continue
            return


TYPEWORDS = {"ptr", "void", "double", "float", "label", "metadata"}
VALWORDS = {"undef", "poison", "true", "false", "null", "zeroinitializer", "getelementptr", "ptrtoint", "inttoptr",
            "bitcast", "splat"}


def cbytes(x):
    s = x[2:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "\\":
            if s[i + 1] == "\\":
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


def parse_float(x, t):
    if x.startswith("f0x"):
        if t[1] == 64:
            return struct.unpack("<d", struct.pack("<Q", int(x[3:], 16)))[0]
        return struct.unpack("<f", struct.pack("<I", int(x[3:], 16)))[0]
    if x.startswith("0x"):
        return struct.unpack("<d", struct.pack("<Q", int(x[2:], 16)))[0]
    if x in ("+inf", "inf"):
        return float("inf")
    if x == "-inf":
        return float("-inf")
    if "nan" in x:
        return float("nan")
    return float(x)


def const_gep(et, idx):
    off = idx[0] * size(et)
    t = et
    for i in idx[1:]:
        if t[0] in ("arr", "vec"):
            t = t[2]
            off += i * size(t)
        else:
            o, t = field_off(t, i)
            off += o
    return off


class Func:
    def __init__(self, name, ret, params):
        self.name, self.ret, self.params = name, ret, params  # params: [(type,name,attrs)]
        self.blocks = {}   # label -> [instr]
        self.order = []
        self.module = None
        self.pretty = name


class Module:
    def __init__(self):
        self.funcs, self.globals, self.decls, self.named = {}, {}, {}, {}


def strip_meta(line):
    """drop trailing ', !meta !n' attachments and comments"""
    if " ;" in line:
        # a comment never contains a quote in rustc output we care about
        q = line.find(" ;")
        if line.count('"', 0, q) % 2 == 0:
            line = line[:q]
    m = re.search(r",? ![a-zA-Z_.]+ !", line)
    if m:
        line = line[:m.start()]
    return line


def parse(path):
    mod = Module()
    lines = open(path, encoding="utf-8", errors="surrogateescape").read().split("\n")
    i, n = 0, len(lines)
    pretty = None
    while i < n:
        ln = lines[i]
        if ln.startswith("; ") and not ln.startswith("; Function Attrs"):
            pretty = ln[2:]
        if ln.startswith("@"):
            parse_global(mod, ln)
        elif re.match(r'%[^ ]+ = type ', ln):
            nm, body = ln.split(" = type ", 1)
            try:
                mod.named[nm] = P(body, mod.named).type()
            except Unsupported:
                pass
        elif ln.startswith("define"):
            f = parse_header(mod, ln)
            f.pretty = pretty or f.name
            i += 1
            cur = None
            while lines[i] != "}":
                l = lines[i]
                if not l.strip() or l.lstrip().startswith(";"):
                    i += 1
                    continue
                m = re.match(r'^("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):', l)
                if m and not l.startswith(" "):
                    cur = "%" + m.group(1)
                    f.blocks[cur] = []
                    f.order.append(cur)
                else:
                    if cur is None:
                        cur = "%0entry"
                        f.blocks[cur] = []
                        f.order.append(cur)
                    t = l.strip()
                    if t.startswith("switch") and "]" not in t:
                        while "]" not in lines[i]:
                            i += 1
                            t += " " + lines[i].strip()
                    if not t.startswith("#dbg"):
                        f.blocks[cur].append(strip_meta(t))
                i += 1
            f.module = mod
            mod.funcs[f.name] = f
            pretty = None
        i += 1
    for f in mod.funcs.values():
        for b in f.order:
            f.blocks[b] = [parse_instr(t, mod) for t in f.blocks[b]]
    return mod


def parse_global(mod, ln):
    m = re.match(r'(@"(?:[^"\\]|\\.)*"|@[-a-zA-Z$._0-9]+) = (.*)$', ln)
    name, rest = m.group(1), m.group(2)
    mm = re.search(r'\b(constant|global)\b (.*)$', rest)
    if not mm or "external" in rest[:mm.start()]:
        mod.globals[name] = None
        return
    try:
        p = P(mm.group(2), mod.named)
        t = p.type()
        v = p.value(t)
        mod.globals[name] = (t, v, mm.group(1) == "constant")
    except (Unsupported, ValueError, IndexError):
        mod.globals[name] = None


def parse_header(mod, ln):
    m = re.search(r'(@"(?:[^"\\]|\\.)*"|@[-a-zA-Z$._0-9]+)\(', ln)
    name = m.group(1)
    pre = P(ln[len("define"):m.start()], mod.named)
    while pre.peek() in ("internal", "private", "hidden", "fastcc", "dso_local", "linkonce_odr", "available_externally",
                         "coldcc", "weak", "protected", "default", "external"):
        pre.next()
    pre.skip_attrs()
    ret = pre.type()
    p = P(ln[m.end():], mod.named)
    params = []
    while not p.accept(")"):
        if p.accept("..."):
            continue
        t = p.type()
        start = p.i
        p.skip_attrs()
        nm = None
        if p.peek() and p.peek()[0] == "%":
            nm = p.next()
        params.append((t, nm, " ".join(p.t[start:p.i])))
        p.accept(",")
    return Func(name, ret, params)


FLAGS = {"nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fast", "nuw", "nsw", "exact", "disjoint",
         "inbounds", "nusw", "samesign", "nneg", "volatile"}
BIN_F = {"fadd", "fsub", "fmul", "fdiv", "frem"}
BIN_I = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr"}


def parse_instr(text, mod):
    p = P(text, mod.named)
    dst = None
    if p.peek(1) == "=":
        dst = p.next()
        p.next()
    op = p.next()
    if op in ("tail", "musttail", "notail"):
        op = p.next()

    def flags():
        while p.peek() in FLAGS:
            p.next()
    if op in BIN_F or op in BIN_I:
        flags()
        t = p.type()
        a = p.value(t)
        p.expect(",")
        b = p.value(t)
        return ("bin", dst, op, t, a, b)
    if op == "fneg":
        flags()
        t = p.type()
        return ("fneg", dst, t, p.value(t))
    if op in ("icmp", "fcmp"):
        flags()
        pred = p.next()
        t = p.type()
        a = p.value(t)
        p.expect(",")
        b = p.value(t)
        return (op, dst, pred, t, a, b)
    if op == "getelementptr":
        while p.peek() in ("inbounds", "nuw", "nusw"):
            p.next()
        et = p.type()
        p.expect(",")
        bt = p.type()
        b = p.value(bt)
        idx = []
        while p.accept(","):
            it = p.type()
            idx.append((it, p.value(it)))
        return ("gep", dst, et, b, idx)
    if op == "load":
        p.accept("atomic")
        flags()
        t = p.type()
        p.expect(",")
        pt = p.type()
        return ("load", dst, t, p.value(pt))
    if op == "atomicrmw":
        flags()
        k = p.next()
        pt = p.type()
        q = p.value(pt)
        p.expect(",")
        t = p.type()
        return ("rmw", dst, k, t, q, p.value(t))
    if op == "cmpxchg":
        p.accept("weak")
        flags()
        pt = p.type()
        q = p.value(pt)
        p.expect(",")
        t = p.type()
        a = p.value(t)
        p.expect(",")
        p.type()
        return ("cmpxchg", dst, t, q, a, p.value(t))
    if op == "store":
        p.accept("atomic")
        flags()
        t = p.type()
        v = p.value(t)
        p.expect(",")
        pt = p.type()
        return ("store", None, t, v, p.value(pt))
    if op == "br":
        if p.accept("label"):
            return ("br", None, p.next())
        p.type()
        c = p.value(I1)
        p.expect(",")
        p.expect("label")
        a = p.next()
        p.expect(",")
        p.expect("label")
        return ("condbr", None, c, a, p.next())
    if op == "switch":
        t = p.type()
        v = p.value(t)
        p.expect(",")
        p.expect("label")
        d = p.next()
        p.expect("[")
        cs = []
        while not p.accept("]"):
            p.type()
            k = int(p.next()) & ((1 << t[1]) - 1)
            p.expect(",")
            p.expect("label")
            cs.append((k, p.next()))
        return ("switch", None, t, v, d, cs)
    if op == "phi":
        flags()
        t = p.type()
        inc = []
        while True:
            p.expect("[")
            v = p.value(t)
            p.expect(",")
            inc.append((v, p.next()))
            p.expect("]")
            if not p.accept(","):
                break
        return ("phi", dst, t, inc)
    if op == "select":
        flags()
        p.type()
        c = p.value(I1)
        p.expect(",")
        t = p.type()
        a = p.value(t)
        p.expect(",")
        p.type()
        b = p.value(t)
        return ("select", dst, t, c, a, b)
    if op == "call":
        flags()
        while p.peek() in ("fastcc", "coldcc", "ccc", "cc"):
            p.next()
        p.skip_attrs()
        t = p.type()
        if p.peek() == "(":   # varargs function type
            p.skip_paren_only() if hasattr(p, "skip_paren_only") else None
        callee = p.next()
        if callee[0] == "%":
            callee = ("r", callee)
        p.expect("(")
        args = []
        while not p.accept(")"):
            at = p.type()
            p.skip_attrs()
            if at[0] == "metadata":
                d = 0
                while not (d == 0 and p.peek() in (",", ")")):
                    x = p.next()
                    d += x in ("(", "{", "!{")
                    d -= x in (")", "}")
                args.append((at, ("undef",)))
            else:
                args.append((at, p.value(at)))
            p.accept(",")
        return ("call", dst, t, callee, args)
    if op == "ret":
        t = p.type()
        return ("ret", None, t, None if t == VOID else p.value(t))
    if op == "unreachable":
        return ("unreachable", None)
    if op == "alloca":
        t = p.type()
        return ("alloca", dst, t)
    if op in ("zext", "sext", "trunc", "uitofp", "sitofp", "fptoui", "fptosi", "bitcast", "ptrtoint", "inttoptr",
              "fpext", "fptrunc", "ptrtoaddr", "addrspacecast"):
        flags()
        t = p.type()
        v = p.value(t)
        p.expect("to")
        return ("cast", dst, op, t, v, p.type())
    if op == "freeze":
        t = p.type()
        return ("copy", dst, t, p.value(t))
    if op == "extractvalue":
        t = p.type()
        v = p.value(t)
        idx = []
        while p.accept(","):
            idx.append(int(p.next()))
        return ("extract", dst, t, v, idx)
    if op == "insertvalue":
        t = p.type()
        v = p.value(t)
        p.expect(",")
        et = p.type()
        e = p.value(et)
        idx = []
        while p.accept(","):
            idx.append(int(p.next()))
        return ("insert", dst, t, v, e, idx)
    if op == "fence":
        return ("nop", None)
    return ("unsupported", dst, text)
