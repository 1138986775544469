"""A small Rust lexer: enough to find items, brace extents, loops and calls in source text."""
import re

class Tok:
    __slots__ = ("k", "s", "a", "b")
    def __init__(self, k, s, a, b): self.k, self.s, self.a, self.b = k, s, a, b
    def __repr__(self): return f"{self.k}:{self.s!r}@{self.a}"

_ws = re.compile(r"\s+")
_id = re.compile(r"(?:r#)?[A-Za-z_][A-Za-z0-9_]*")
_num = re.compile(r"[0-9][0-9A-Za-z_]*(?:\.[0-9][0-9A-Za-z_]*)?")
_life = re.compile(r"'(?:[A-Za-z_][A-Za-z0-9_]*)(?!')")
_chr = re.compile(r"b?'(?:\\(?:x[0-9A-Fa-f]{2}|u\{[0-9A-Fa-f_]+\}|.)|[^'\\])'")
_raw = re.compile(r'b?r(#*)"')

def lex(src):
    """list of tokens without whitespace and comments"""
    out, i, n = [], 0, len(src)
    while i < n:
        c = src[i]
        m = _ws.match(src, i)
        if m: i = m.end(); continue
        if src.startswith("//", i):
            j = src.find("\n", i); i = n if j < 0 else j; continue
        if src.startswith("/*", i):
            d, j = 1, i + 2
            while j < n and d:
                if src.startswith("/*", j): d += 1; j += 2
                elif src.startswith("*/", j): d -= 1; j += 2
                else: j += 1
            i = j; continue
        m = _raw.match(src, i)
        if m:
            end = '"' + m.group(1)
            j = src.index(end, m.end()) + len(end)
            out.append(Tok("str", src[i:j], i, j)); i = j; continue
        if c == '"' or src.startswith('b"', i):
            j = i + (1 if c == '"' else 2)
            while src[j] != '"': j += 2 if src[j] == "\\" else 1
            j += 1
            out.append(Tok("str", src[i:j], i, j)); i = j; continue
        m = _chr.match(src, i)
        if m and (c == "'" or src.startswith("b'", i)):
            out.append(Tok("chr", m.group(), i, m.end())); i = m.end(); continue
        if c == "'":
            m = _life.match(src, i)
            if m: out.append(Tok("life", m.group(), i, m.end())); i = m.end(); continue
        m = _id.match(src, i)
        if m: out.append(Tok("id", m.group(), i, m.end())); i = m.end(); continue
        m = _num.match(src, i)
        if m: out.append(Tok("num", m.group(), i, m.end())); i = m.end(); continue
        out.append(Tok("p", c, i, i + 1)); i += 1
    return out

OPEN = {"{": "}", "(": ")", "[": "]"}

def match_close(toks, i):
    """index of the token closing the bracket at index i"""
    d = 0
    while True:
        s = toks[i].s
        if toks[i].k == "p":
            if s in "{([": d += 1
            elif s in "})]":
                d -= 1
                if d == 0: return i
        i += 1

class Fn:
    """one fn item: positions refer to the source text"""
    def __init__(self, src, toks, i, start, owner):
        self.src, self.owner = src, owner
        self.name = toks[i + 1].s
        self.start = start
        j = i + 2
        if toks[j].s == "<":                      # generics
            d = 0
            while True:
                if toks[j].s == "<": d += 1
                elif toks[j].s == ">" and toks[j - 1].s != "-":
                    d -= 1
                    if d == 0: break
                j += 1
            j += 1
        assert toks[j].s == "(", (self.name, toks[j])
        self.params = (toks[j].a, toks[match_close(toks, j)].b)
        j = match_close(toks, j) + 1
        self.ret = None
        k = j
        depth = 0
        while not (toks[k].k == "p" and toks[k].s in "{;" and depth == 0):
            if toks[k].s in "([": depth += 1
            if toks[k].s in ")]": depth -= 1
            k += 1
        # return type between -> and (where | { )
        if toks[j].s == "-" and toks[j + 1].s == ">":
            e = j + 2
            while e < k and toks[e].s != "where": e += 1
            self.ret = (toks[j].a, toks[j + 2].a, toks[e - 1].b)
        self.sig_end = toks[k].a
        self.has_body = toks[k].s == "{"
        if self.has_body:
            c = match_close(toks, k)
            self.body = (toks[k].a, toks[c].b)
            self.btoks = toks[k:c + 1]
            self.end = toks[c].b
        else:
            self.body, self.btoks, self.end = None, [], toks[k].b

    def text(self): return self.src[self.start:self.end]

    def loops(self):
        """[(keyword, pos of keyword, pos of '{', pos of matching '}')] in textual order"""
        t, out = self.btoks, []
        for i, x in enumerate(t):
            if x.k == "id" and x.s in ("loop", "while", "for"):
                if x.s == "for" and t[i + 1].s == "<": continue      # for<'a>
                j, d = i + 1, 0
                while not (t[j].s == "{" and d == 0):
                    if t[j].k == "p" and t[j].s in "([": d += 1
                    if t[j].k == "p" and t[j].s in ")]": d -= 1
                    if t[j].k == "p" and t[j].s == "{" and d: j = match_close(t, j)
                    j += 1
                c = match_close(t, j)
                out.append((x.s, x.a, t[j].a, t[c].a))
        return out

    def calls(self):
        """names called as plain functions `name(` or `name::<..>(` (not methods, not macros)"""
        t, out = self.btoks, set()
        for i, x in enumerate(t[:-1]):
            if x.k == "id" and t[i + 1].s == "(" and t[i - 1].s not in (".", "fn"):
                out.add(x.s)
        return out
    def mcalls(self):
        t, out = self.btoks, set()
        for i, x in enumerate(t[:-1]):
            if x.k == "id" and t[i + 1].s == "(" and t[i - 1].s == ".": out.add(x.s)
        return out

class File:
    def __init__(self, path, src=None):
        self.path = path
        self.src = open(path, encoding="utf-8").read() if src is None else src
        self.toks = lex(self.src)
        self.fns = []
        self._scan(0, len(self.toks), None)

    def _item_start(self, i):
        """source position where the item whose keyword is toks[i] begins, visibility and qualifiers included"""
        t = self.toks
        j = i
        while j > 0:
            p = t[j - 1]
            if p.k == "id" and p.s in ("pub", "const", "unsafe", "async", "extern"): j -= 1; continue
            if p.s == ")" and j >= 4 and t[j - 4].s == "pub" and t[j - 3].s == "(": j -= 4; continue
            break
        return t[j].a

    def _scan(self, i, end, owner):
        t = self.toks
        while i < end:
            x = t[i]
            if x.k == "id" and x.s in ("impl", "trait", "mod") and (i == 0 or t[i - 1].s in (";", "}", "{", "]", ")", "pub", "unsafe")):
                j = i + 1
                while t[j].s not in ("{", ";"): j += 1
                if t[j].s == ";": i = j + 1; continue
                c = match_close(t, j)
                head = self.src[x.a:t[j].a]
                name = re.sub(r"\s+", " ", head).strip()
                self._scan(j + 1, c, (owner + "/" if owner else "") + name)
                i = c + 1; continue
            if x.k == "id" and x.s == "macro_rules" and t[i + 1].s == "!":
                j = i
                while t[j].s not in ("{", "("): j += 1
                i = match_close(t, j) + 1; continue
            if x.k == "id" and x.s == "fn" and t[i + 1].k == "id":
                f = Fn(self.src, t, i, self._item_start(i), owner)
                self.fns.append(f)
                while i < end and t[i].a < f.end: i += 1
                continue
            i += 1

    def fn(self, name, owner=None):
        c = [f for f in self.fns if f.name == name and (owner is None or (f.owner and owner in f.owner))
             and not (f.owner and "mod tests" in f.owner) and not (f.owner and "vp_hooks" in f.owner)]
        return c

    def item(self, kw, name):
        """text of `kw name ...` (const/struct/enum/type), without outer attributes"""
        t = self.toks
        skip = -1
        for i, x in enumerate(t):
            if i < skip: continue
            if x.k == "id" and x.s == "macro_rules" and t[i + 1].s == "!":
                j = i
                while t[j].s not in ("{", "("): j += 1
                skip = match_close(t, j); continue
            if x.k == "id" and x.s == kw and t[i + 1].s == name:
                j = i
                while not (t[j].k == "p" and t[j].s in ";{"):
                    if t[j].s in "([": j = match_close(t, j)
                    j += 1
                e = t[match_close(t, j)].b if t[j].s == "{" else t[j].b
                if t[j].s == "{" and kw == "const":
                    raise KeyError(name)
                return self.src[self._item_start(i):e]
        raise KeyError(f"{kw} {name} in {self.path}")
