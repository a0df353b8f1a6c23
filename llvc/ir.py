"""Parser for the subset of textual LLVM IR (opaque pointers) that clang emits for flatdata's C++ sources."""
import re

class IRError(Exception):
    pass

TOK = re.compile(r'''\s*(?:
   (?P<str>c?"(?:[^"])*")
 | (?P<loc>[%@](?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>!(?:\d+|[a-zA-Z._]*))
 | (?P<attr>\#\d+)
 | (?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?|0x[0-9A-Fa-f]+)
 | (?P<word>[a-zA-Z_.$][-a-zA-Z0-9_.$]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[()\[\]{}<>,=*:|])
)''', re.X)

def tokenize(s):
    out, i, n = [], 0, len(s)
    while i < n:
        if s[i] == ';':
            break
        m = TOK.match(s, i)
        if not m or m.end() == i:
            if s[i:].strip() == "" or s[i:].lstrip().startswith(";"):
                break
            raise IRError(f"cannot tokenize: {s[i:i+60]!r} in {s!r}")
        out.append(m.group().strip())
        i = m.end()
    return out

# --- types ----------------------------------------------------------------
# ("int", n) | ("ptr",) | ("void",) | ("array", n, t) | ("struct", [t], packed) | ("vector", n, t) | ("named", name) | ("float", bits)

class P:
    """Token cursor."""
    def __init__(self, toks):
        self.t, self.i = toks, 0
    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None
    def next(self):
        r = self.peek()
        if r is None:
            raise IRError("unexpected end of line")
        self.i += 1
        return r
    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False
    def expect(self, x):
        if not self.eat(x):
            raise IRError(f"expected {x!r}, found {self.t[self.i:self.i+6]}")
    def done(self):
        return self.i >= len(self.t)

def parse_type(p):
    t = p.next()
    if re.fullmatch(r"i\d+", t):
        ty = ("int", int(t[1:]))
    elif t == "ptr":
        ty = ("ptr",)
        if p.peek() == "addrspace":
            raise IRError("addrspace")
    elif t in ("void", "label", "metadata", "token"):
        ty = (t,)
    elif t in ("float", "double", "x86_fp80", "half", "fp128"):
        ty = ("float", {"float": 32, "double": 64, "x86_fp80": 80, "half": 16, "fp128": 128}[t])
    elif t == "[":
        n = int(p.next()); p.expect("x")
        ty = ("array", n, parse_type(p)); p.expect("]")
    elif t == "<":
        if p.eat("{"):
            ty = ("struct", _types(p, "}"), True); p.expect(">")
        else:
            n = int(p.next()); p.expect("x")
            ty = ("vector", n, parse_type(p)); p.expect(">")
    elif t == "{":
        ty = ("struct", _types(p, "}"), False)
    elif t[0] == "%":
        ty = ("named", t)
    elif t == "opaque":
        ty = ("opaque",)
    else:
        raise IRError(f"unknown type {t!r} at {p.t[max(0,p.i-3):p.i+5]}")
    while p.peek() == "(" and ty[0] in ("void", "int", "ptr") and False:
        pass
    return ty

def _types(p, close):
    out = []
    while not p.eat(close):
        out.append(parse_type(p))
        p.eat(",")
    return out

PARAM_ATTRS = {"noundef", "nonnull", "signext", "zeroext", "inreg", "noalias", "nocapture", "readonly", "readnone", "writeonly",
               "returned", "nofree", "immarg", "inalloca", "nest", "swiftself", "noinline", "writable", "dead_on_unwind", "allocptr", "allocalign"}

def skip_param_attrs(p):
    """-> dict of the attributes that matter (align, dereferenceable, sret, byval)."""
    out = {}
    while True:
        t = p.peek()
        if t in PARAM_ATTRS:
            out[t] = True
            p.next()
        elif t in ("align",):
            p.next()
            if p.eat("("):
                out["align"] = int(p.next()); p.expect(")")
            else:
                out["align"] = int(p.next())
        elif t in ("dereferenceable", "dereferenceable_or_null", "range", "initializes", "captures", "nofpclass", "memory"):
            k = p.next(); p.expect("(")
            d = 1
            while d:
                x = p.next()
                d += (x == "(") - (x == ")")
        elif t in ("sret", "byval", "byref", "elementtype", "inalloca", "preallocated"):
            k = p.next()
            if p.eat("("):
                out[k] = parse_type(p); p.expect(")")
        else:
            return out

# --- operands --------------------------------------------------------------
# ("local", name) ("global", name) ("int", v) ("null",) ("undef",) ("poison",) ("zero",) ("agg", [(ty, op)]) ("bytes", b) ("cexpr", op, ...)

def parse_operand(p, ty):
    t = p.peek()
    if t[0] == "%":
        p.next(); return ("local", t)
    if t[0] == "@":
        p.next(); return ("global", t)
    if t in ("true", "false"):
        p.next(); return ("int", 1 if t == "true" else 0)
    if t == "null":
        p.next(); return ("null",)
    if t in ("undef", "poison"):
        p.next(); return (t,)
    if t == "zeroinitializer" or t == "none":
        p.next(); return ("zero",)
    if re.fullmatch(r"-?\d+", t):
        p.next(); return ("int", int(t))
    if t[0] == "c" and len(t) > 1 and t[1] == '"':
        p.next(); return ("bytes", decode_str(t[2:-1]))
    if t in ("[", "{", "<"):
        p.next()
        packed = False
        close = {"[": "]", "{": "}", "<": ">"}[t]
        if t == "<" and p.eat("{"):
            packed, close = True, "}"
        els = []
        while not p.eat(close):
            et = parse_type(p)
            els.append((et, parse_operand(p, et)))
            p.eat(",")
        if packed:
            p.expect(">")
        return ("agg", els)
    if t == "getelementptr":
        p.next()
        flags = set()
        while p.peek() in ("inbounds", "nuw", "nusw", "inrange"):
            f = p.next(); flags.add(f)
            if f == "inrange" and p.eat("("):
                while not p.eat(")"):
                    p.next()
        p.expect("(")
        bt = parse_type(p); p.expect(",")
        args = []
        while not p.eat(")"):
            while p.peek() == "inrange":
                p.next()
            at = parse_type(p)
            args.append((at, parse_operand(p, at)))
            p.eat(",")
        return ("cgep", bt, args, flags)
    if t in ("ptrtoint", "inttoptr", "bitcast", "trunc", "zext", "sext"):
        p.next(); p.expect("(")
        st = parse_type(p); v = parse_operand(p, st)
        p.expect("to"); dt = parse_type(p); p.expect(")")
        return ("ccast", t, st, v, dt)
    if t in ("add", "sub", "mul", "and", "or", "xor", "shl"):
        p.next()
        while p.peek() in ("nuw", "nsw"):
            p.next()
        p.expect("(")
        at = parse_type(p); a = parse_operand(p, at); p.expect(",")
        bt = parse_type(p); b = parse_operand(p, bt); p.expect(")")
        return ("cbin", t, at, a, b)
    if re.fullmatch(r"-?\d+\.\d+.*|0x[0-9A-Fa-f]+", t):
        p.next(); return ("fp", t)
    raise IRError(f"operand {t!r}")

def decode_str(s):
    out, i = bytearray(), 0
    while i < len(s):
        if s[i] == "\\":
            if s[i + 1] == "\\":
                out.append(92); i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16)); i += 3
        else:
            out.append(ord(s[i])); i += 1
    return bytes(out)

class Inst:
    __slots__ = ("op", "dst", "a", "text", "line")
    def __init__(self, op, dst, a, text):
        self.op, self.dst, self.a, self.text = op, dst, a, text
    def __repr__(self):
        return self.text

BIN = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor"}
CAST = {"trunc", "zext", "sext", "ptrtoint", "inttoptr", "bitcast", "uitofp", "sitofp", "fptoui", "fptosi", "fpext", "fptrunc"}

def parse_inst(text):
    p = P(tokenize(text))
    dst = None
    if p.peek()[0] == "%" and p.peek(1) == "=":
        dst = p.next(); p.next()
    op = p.next()
    while op in ("tail", "musttail", "notail"):
        op = p.next()
    if op in BIN:
        flags = set()
        while p.peek() in ("nuw", "nsw", "exact", "disjoint"):
            flags.add(p.next())
        ty = parse_type(p); a = parse_operand(p, ty); p.expect(","); b = parse_operand(p, ty)
        return Inst(op, dst, (ty, a, b, flags), text)
    if op == "icmp":
        same = p.eat("samesign")
        pred = p.next(); ty = parse_type(p); a = parse_operand(p, ty); p.expect(","); b = parse_operand(p, ty)
        return Inst(op, dst, (pred, ty, a, b, same), text)
    if op in CAST:
        flags = set()
        while p.peek() in ("nneg", "nuw", "nsw"):
            flags.add(p.next())
        st = parse_type(p); v = parse_operand(p, st); p.expect("to"); dt = parse_type(p)
        return Inst(op, dst, (st, v, dt, flags), text)
    if op == "select":
        ct = parse_type(p); c = parse_operand(p, ct); p.expect(",")
        ty = parse_type(p); a = parse_operand(p, ty); p.expect(",")
        t2 = parse_type(p); b = parse_operand(p, t2)
        return Inst(op, dst, (ct, c, ty, a, b), text)
    if op == "freeze":
        ty = parse_type(p)
        return Inst(op, dst, (ty, parse_operand(p, ty)), text)
    if op == "alloca":
        p.eat("inalloca")
        ty = parse_type(p)
        n = None
        if p.eat(",") and p.peek() != "align":
            nt = parse_type(p); n = (nt, parse_operand(p, nt))
        return Inst(op, dst, (ty, n), text)
    if op == "load":
        vol = p.eat("volatile")
        if p.eat("atomic"):
            raise IRError("atomic load")
        ty = parse_type(p); p.expect(","); pt = parse_type(p); v = parse_operand(p, pt)
        al = 1
        if p.eat(",") and p.peek() == "align":
            p.next(); al = int(p.next())
        return Inst(op, dst, (ty, v, al), text)
    if op == "store":
        p.eat("volatile")
        if p.peek() == "atomic":
            raise IRError("atomic store")
        ty = parse_type(p); v = parse_operand(p, ty); p.expect(","); pt = parse_type(p); a = parse_operand(p, pt)
        al = 1
        if p.eat(",") and p.peek() == "align":
            p.next(); al = int(p.next())
        return Inst(op, dst, (ty, v, a, al), text)
    if op == "getelementptr":
        flags = set()
        while p.peek() in ("inbounds", "nuw", "nusw"):
            flags.add(p.next())
        bt = parse_type(p); p.expect(",")
        args = []
        while True:
            at = parse_type(p)
            args.append((at, parse_operand(p, at)))
            if not p.eat(",") or p.peek()[0] == "!":
                break
        return Inst(op, dst, (bt, args, flags), text)
    if op == "br":
        if p.peek() == "label":
            p.next(); return Inst("jmp", None, (p.next(),), text)
        ty = parse_type(p); c = parse_operand(p, ty)
        p.expect(","); p.expect("label"); a = p.next(); p.expect(","); p.expect("label"); b = p.next()
        return Inst("br", None, (c, a, b), text)
    if op == "switch":
        ty = parse_type(p); v = parse_operand(p, ty); p.expect(","); p.expect("label"); d = p.next(); p.expect("[")
        cases = []
        while not p.eat("]"):
            ct = parse_type(p); cv = parse_operand(p, ct); p.expect(","); p.expect("label"); cases.append((cv[1], p.next()))
        return Inst(op, None, (ty, v, d, cases), text)
    if op == "phi":
        ty = parse_type(p)
        inc = []
        while p.eat("["):
            v = parse_operand(p, ty); p.expect(","); b = p.next(); p.expect("]"); p.eat(",")
            inc.append((v, b))
        return Inst(op, dst, (ty, inc), text)
    if op == "ret":
        ty = parse_type(p)
        return Inst(op, None, (ty, None if ty == ("void",) else parse_operand(p, ty)), text)
    if op == "unreachable":
        return Inst(op, None, (), text)
    if op == "extractvalue":
        ty = parse_type(p); v = parse_operand(p, ty)
        idx = []
        while p.eat(",") and p.peek()[0] != "!":
            idx.append(int(p.next()))
        return Inst(op, dst, (ty, v, idx), text)
    if op == "insertvalue":
        ty = parse_type(p); v = parse_operand(p, ty); p.expect(","); et = parse_type(p); e = parse_operand(p, et)
        idx = []
        while p.eat(",") and p.peek()[0] != "!":
            idx.append(int(p.next()))
        return Inst(op, dst, (ty, v, et, e, idx), text)
    if op in ("call", "invoke"):
        while p.peek() in ("fastcc", "coldcc", "ccc", "fast", "nnan", "ninf", "nsz"):
            p.next()
        skip_param_attrs(p)
        ty = parse_type(p)
        if p.peek() == "(":                         # function type for varargs
            d = 0
            while True:
                x = p.next()
                d += (x == "(") - (x == ")")
                if d == 0:
                    break
        callee = parse_operand(p, ("ptr",))
        p.expect("(")
        args = []
        while not p.eat(")"):
            at = parse_type(p)
            if at == ("metadata",):
                while p.peek() not in (",", ")"):
                    p.next()
                p.eat(",")
                continue
            attrs = skip_param_attrs(p)
            args.append((at, parse_operand(p, at), attrs))
            p.eat(",")
        normal = unwind = None
        if op == "invoke":
            while p.peek() != "to":
                p.next()
            p.next(); p.expect("label"); normal = p.next(); p.expect("unwind"); p.expect("label"); unwind = p.next()
        return Inst(op, dst, (ty, callee, args, normal, unwind), text)
    if op == "landingpad":
        return Inst(op, dst, (parse_type(p), "catch" in p.t), text)
    if op == "resume":
        return Inst(op, None, (), text)
    return Inst("unknown:" + op, dst, (), text)

class Func:
    def __init__(self, name, rty, params, text):
        self.name, self.rty, self.params, self.text = name, rty, params, text
        self._blocks = None
    @property
    def blocks(self):
        if self._blocks is None:
            self._parse()
        return self._blocks
    def _parse(self):
        blocks, order = {}, []
        cur, name = None, None
        nextnum = sum(1 for n, *_ in self.params if re.fullmatch(r"%\d+", n))
        lines = join_lines(self.text)
        for ln in lines:
            m = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', ln)
            if m:
                name = "%" + m.group(1)
                cur = blocks[name] = []
                order.append(name)
                continue
            if cur is None:
                name = f"%{nextnum}"
                cur = blocks[name] = []
                order.append(name)
            cur.append(parse_inst(ln))
        self._blocks, self.order, self.entry = blocks, order, order[0]
        self._find_loops()
    def succ(self, b):
        t = self.blocks[b][-1]
        if t.op == "jmp":
            return [t.a[0]]
        if t.op == "br":
            return [t.a[1], t.a[2]]
        if t.op == "switch":
            return [t.a[2]] + [x for _, x in t.a[3]]
        if t.op == "invoke":
            return [t.a[3]]
        return []
    def _find_loops(self):
        """Natural loops: header -> set of blocks (via back edges of a DFS; the CFG of clang output is reducible)."""
        self.loops = {}
        idx, onstack, seen = {}, set(), set()
        backs = []
        stack = [(self.entry, iter(self.succ(self.entry)))]
        seen.add(self.entry); onstack.add(self.entry)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s in onstack:
                    backs.append((b, s))
                elif s not in seen:
                    seen.add(s); onstack.add(s)
                    stack.append((s, iter(self.succ(s))))
                    break
            else:
                stack.pop(); onstack.discard(b)
        pred = {}
        for b in seen:
            for s in self.succ(b):
                pred.setdefault(s, []).append(b)
        for tail, head in backs:
            body = self.loops.setdefault(head, {head})
            work = [tail]
            while work:
                x = work.pop()
                if x in body:
                    continue
                body.add(x)
                work += pred.get(x, [])
        self.headers = [b for b in self.order if b in self.loops]

def join_lines(text):
    out, acc, depth = [], "", 0
    for ln in text:
        s = ln.strip()
        if not s or s.startswith(";"):
            continue
        if out and (s.startswith("to label") or s == "cleanup" or s.startswith("catch ") or s.startswith("filter ")):
            out[-1] += " " + s
            continue
        if acc:
            acc += " " + s
            if s.startswith("]"):
                out.append(acc); acc = ""
            continue
        if s.startswith("switch ") and "]" not in s.split("[", 1)[-1]:
            acc = s
            continue
        out.append(s)
    return out

class Module:
    def __init__(self, text):
        self.types, self.globals, self.funcs, self.decls, self.aliases = {}, {}, {}, {}, {}
        lines = text.split("\n")
        i = 0
        while i < len(lines):
            ln = lines[i]
            if ln.startswith("define "):
                j = i + 1
                while lines[j] != "}":
                    j += 1
                f = self._header(ln)
                f.text = lines[i + 1:j]
                self.funcs[f.name] = f
                i = j + 1
                continue
            if ln.startswith("declare "):
                f = self._header(ln)
                self.decls[f.name] = f
            elif re.match(r'^%(?:"[^"]*"|[-\w$.]+) = type ', ln):
                name, rest = ln.split(" = type ", 1)
                self.types[name] = parse_type(P(tokenize(rest)))
            elif ln.startswith("@"):
                self._global(ln)
            i += 1
    def _header(self, ln):
        k = ln.index(" @")
        m = re.compile(r'@("[^"]*"|[-a-zA-Z$._0-9]+)').match(ln, k + 1)
        name = "@" + m.group(1)
        # return type: last type before the name
        pre = tokenize(ln[:k])
        rty = ("void",)
        for st in range(len(pre)):
            p = P(pre[st:])
            try:
                t = parse_type(p)
                if p.done():
                    rty = t
                    break
            except IRError:
                continue
        rest = ln[m.end():]
        d, e = 0, 0
        for e, ch in enumerate(rest):
            d += (ch == "(") - (ch == ")")
            if d == 0:
                break
        p = P(tokenize(rest[1:e]))
        params, n = [], 0
        while not p.done():
            if p.peek() == "...":
                break
            ty = parse_type(p)
            attrs = skip_param_attrs(p)
            if p.peek() and p.peek()[0] == "%":
                nm = p.next()
            else:
                nm = f"%{n}"
            if re.fullmatch(r"%\d+", nm):
                n += 1
            params.append((nm, ty, attrs))
            p.eat(",")
        return Func(name, rty, params, [])
    def _global(self, ln):
        m = re.match(r'^(@(?:"[^"]*"|[-\w$.]+)) = (.*)$', ln)
        name, rest = m.groups()
        if re.search(r"\balias\b", rest.split("(")[0]):
            t = re.findall(r'@(?:"[^"]*"|[-\w$.]+)', rest)
            self.aliases[name] = t[-1]
            return
        m2 = re.search(r"\b(constant|global)\s", rest)
        if not m2:
            return
        self.globals[name] = (rest[m2.end():], m2.group(1) == "constant", "external" in rest[:m2.start()].split())
