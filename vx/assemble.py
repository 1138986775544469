"""Assembles a Verus source file from a template in /verif/proofs and functions cut from /repo on this run.

The executable text of every function under contract is the text found in /repo, unmodified except for the
logged substitutions below; contracts, invariants and proof blocks are spliced in at structural positions
(after the signature, at the n-th loop, at the start or end of a body)."""
import os, re, hashlib, json, subprocess
from rustlex import File, lex, match_close

class ExtractError(Exception):
    """the template no longer fits the source: a tool limit, never a violation"""

# (name, regex, replacement): purely syntactic, applied to every extracted function
SUBS = [
    ("visibility pub(crate) -> pub", re.compile(r"\bpub\((?:crate|super|self)\)"), "pub"),
    ("std::io paths name the prelude's io module", re.compile(r"\bstd::io::"), "io::"),
    ("crate paths are flattened (one namespace per unit)", re.compile(r"\bcrate::(?:[a-z_0-9]+::)*"), ""),
    ("std::cmp::max -> vx_max", re.compile(r"\bstd::cmp::max\b"), "vx_max"),
    ("std::cmp::min -> vx_min", re.compile(r"\bstd::cmp::min\b"), "vx_min"),
    ("for (a, b) in (x..y).enumerate() -> counted loop",
     re.compile(r"for\s*\(\s*(\w+)\s*,\s*(\w+)\s*\)\s*in\s*\(\s*([\w.]+)\s*\.\.\s*([\w.()]+)\s*\)\.enumerate\(\)((?:\s|\x01\d+\x02)*)\{"),
     r"for \1 in 0..(\4 - \3)\5{ let \2 = \3 + \1;"),
    ("for (i, x) in a.iter().enumerate().take(n) -> counted loop",
     re.compile(r"for\s*\(\s*(\w+)\s*,\s*(\w+)\s*\)\s*in\s*(\w+)\.iter\(\)\.enumerate\(\)\.take\((\w+)\)((?:\s|\x01\d+\x02)*)\{"),
     r"for \1 in 0..vx_min(\3.len(), \4)\5{ let \2 = &\3[\1];"),
    ("c.take(n).read_to_end(b) -> c.vx_take_to_end(n, b)",
     re.compile(r"\.take\(([^()]*)\)\s*\.read_to_end\("), r".vx_take_to_end(\1, "),
    ("x.to_vec() -> contract-bearing vx_to_vec()", re.compile(r"\.to_vec\(\)"), ".vx_to_vec()"),
    ("Vec::extend(x) -> contract-bearing vx_extend(x)", re.compile(r"\.extend\("), ".vx_extend("),
]
DROP_MACROS = {"warn", "debug", "info", "error", "trace"}

def lower(text, log, rules=(), elems=None):
    for name, rx, rep in SUBS + list(rules):
        text, n = rx.subn(rep, text)
        if n: log[name] = log.get(name, 0) + n
    # x.extend(e.iter()) -> x.extend(&(e))
    toks = lex(text)
    for i in range(len(toks) - 2, 0, -1):
        if toks[i].s == "vx_extend" and toks[i + 1].s == "(":
            c = match_close(toks, i + 1)
            if [t.s for t in toks[c - 4:c]] == [".", "iter", "(", ")"]:
                text = text[:toks[i + 1].b] + "&(" + text[toks[i + 1].b:toks[c - 4].a].rstrip() + ")" + text[toks[c - 1].b:]
                toks = lex(text)
                log["extend(x.iter()) -> extend(&x)"] = log.get("extend(x.iter()) -> extend(&x)", 0) + 1
    # token-level: drop logging macros, replace format! by an opaque message
    toks = lex(text)
    out, last, i = [], 0, 0
    while i < len(toks):
        t = toks[i]
        if (t.k == "id" and t.s in DROP_MACROS and i + 1 < len(toks) and toks[i + 1].s == "!"
                and i >= 3 and toks[i - 3].s == "log"):
            c = match_close(toks, i + 2)
            out.append(text[last:toks[i - 3].a]); out.append("()"); last = toks[c].b
            log["logging macro dropped"] = log.get("logging macro dropped", 0) + 1
            i = c + 1; continue
        if t.k == "id" and t.s == "format" and i + 1 < len(toks) and toks[i + 1].s == "!":
            c = match_close(toks, i + 2)
            out.append(text[last:t.a]); out.append('""'); last = toks[c].b
            log["format! message text dropped"] = log.get("format! message text dropped", 0) + 1
            i = c + 1; continue
        i += 1
    out.append(text[last:])
    text = "".join(out)
    if any(r[0].startswith("String") for r in rules): text = lower_strings(text, log)
    if elems: text = lower_closures(text, log, elems)
    return lower_const_match(lower_array_match(text, log), log)

def lower_array_match(text, log):
    """match x { [0x89, _, 0x4E, ..] => .., _ => .. } on an array -> if/else chain of comparisons of its elements"""
    while True:
        toks = lex(text)
        done = True
        for i, t in enumerate(toks):
            if not (t.k == "id" and t.s == "match" and i + 3 < len(toks) and toks[i + 1].k == "id" and toks[i + 2].s == "{"): continue
            end = match_close(toks, i + 2)
            j, arms, ok, arrays = i + 3, [], True, 0
            x = toks[i + 1].s
            while j < end and ok:
                k, conds = j, []
                while not (toks[k].s == "=" and toks[k + 1].s == ">" and toks[k + 1].a == toks[k].b):
                    if toks[k].s == "|": k += 1
                    elif toks[k].s == "_": conds.append("_"); k += 1
                    elif toks[k].s == "[":
                        c = match_close(toks, k); inner = re.sub(r"//[^\n]*|\x01\d+\x02", "", text[toks[k].b:toks[c].a])
                        els = [e.strip() for e in inner.split(",") if e.strip()]
                        if not els or els[-1] != ".." or not all(re.fullmatch(r"_|0x[0-9a-fA-F]+|\d+", e) for e in els[:-1]): ok = False; break
                        conds.append(" && ".join(f"{x}[{n}] == {e}" for n, e in enumerate(els[:-1]) if e != "_")); arrays += 1; k = c + 1
                    else: ok = False; break
                if not ok: break
                b = k + 2
                if toks[b].s == "{":
                    c = match_close(toks, b); body = text[toks[b].a:toks[c].b]; j = c + 1
                    if j < end and toks[j].s == ",": j += 1
                else:
                    c = b
                    while c < end and toks[c].s != ",": c = match_close(toks, c) + 1 if toks[c].s in "{([" else c + 1
                    body = "{ " + text[toks[b].a:toks[c - 1].b] + " }"; j = c + 1
                arms.append((conds, body))
            if not ok or not arrays or arms[-1][0] != ["_"] or any(c == "_" for a in arms[:-1] for c in a[0]): continue
            out = " else ".join(("if " + " || ".join(f"({c})" for c in cs) + " " if cs != ["_"] else "") + b for cs, b in arms)
            old = text[t.a:toks[end].b]
            if sorted(re.findall("\x01\\d+\x02", old)) != sorted(re.findall("\x01\\d+\x02", out)): continue
            text = text[:t.a] + out + text[toks[end].b:]
            log["match on array patterns -> if/else chain"] = log.get("match on array patterns -> if/else chain", 0) + 1
            done = False; break
        if done: return text

ADAPTERS = {"find", "any", "all", "position", "retain", "sort_by_key", "sort_by", "filter"}
def lower_closures(text, log, elems):
    """x.iter().find(|e| C) and the like -> x.vx_find(|e: &T| -> (vx_b: bool) ensures vx_b == (C) { C }, Ghost(|e: T| C)):
    a contract-bearing method that gets the closure (annotated with its own body) and the same body as a ghost predicate"""
    def receiver(toks, i):
        """index of the first token of the postfix expression that ends before toks[i] ('.')"""
        j = i - 1
        while True:
            if toks[j].s in ")]":
                d = 0
                while True:
                    if toks[j].s in ")]": d += 1
                    if toks[j].s in "([":
                        d -= 1
                        if d == 0: break
                    j -= 1
                if toks[j - 1].k == "id" or toks[j - 1].s in ")]": j -= 1; continue
            if toks[j].k == "id":
                if toks[j - 1].s == "." : j -= 2; continue
                if toks[j - 1].s == ":" and toks[j - 2].s == ":": j -= 3; continue
            return j
    done_upto = 0
    while True:
        toks = lex(text)
        for i in range(len(toks) - 4):
            if not (toks[i].s == "." and toks[i + 1].s in ADAPTERS and toks[i + 2].s == "(" and toks[i + 3].s == "|" and toks[i].a >= done_upto): continue
            m, o = toks[i + 1].s, i + 2
            c = match_close(toks, o)
            r, rec_end, suffix = i, i, ""
            if [t.s for t in toks[i - 3:i]] == ["iter", "(", ")"] and toks[i - 4].s == ".": rec_end = i - 4
            elif [t.s for t in toks[i - 3:i]] == ["iter_mut", "(", ")"] and toks[i - 4].s == ".": rec_end, suffix = i - 4, "_mut"
            elif m not in ("retain", "sort_by_key", "sort_by"): continue
            rs = receiver(toks, rec_end)
            rec = text[toks[rs].a:toks[rec_end - 1].b]
            ids = re.findall(r"\w+", rec)
            T = elems.get(ids[-1]) if ids else None
            if not T: continue
            pe = o + 2
            while toks[pe].s != "|": pe += 1
            ps = [t.s for t in toks[o + 2:pe] if t.k == "id"]
            e = c
            if toks[c - 1].s == ",": e = c - 1
            body = text[toks[pe + 1].a:toks[e - 1].b]
            end = toks[c].b
            if m == "sort_by" and len(ps) == 2:
                new = f"{rec}.vx_sort_by(|{ps[0]}: &{T}, {ps[1]}: &{T}| -> (vx_o: Ordering) VX_SORT_SPEC {{ {body} }}, VX_SORT_GHOST)"
            elif len(ps) != 1: continue
            elif m == "sort_by_key":
                new = f"{rec}.vx_sort_by_key(|{ps[0]}: &{T}| -> (vx_b: u16) ensures vx_b == ({body}) {{ {body} }}, Ghost(|{ps[0]}: {T}| {body}))"
            else:
                ghost = re.sub(r"(^|[(&|!=<>,{])(\s*)\*" + ps[0] + r"\b", r"\1\2" + ps[0], body)
                args = f"|{ps[0]}: &{T}| -> (vx_b: bool) ensures vx_b == ({body}) {{ {body} }}, Ghost(|{ps[0]}: {T}| {ghost})"
                if m == "filter":
                    rest = text[end:]
                    mm = re.match(r"\s*\.\s*max_by\(\|(\w+), (\w+)\|\s*\1\.(\w+)\(\)\.cmp\(&\2\.\3\(\)\)\s*\)", rest)
                    mc = re.match(r"\s*\.\s*count\(\)", rest)
                    ml = re.match(r"\s*\.\s*collect::<[\w<>& ]*>\(\)", rest)
                    if mm: m, args, end = "filter_max", args + f", |{mm.group(1)}: &{T}| -> (vx_b: u32) ensures vx_b == ({mm.group(1)}.{mm.group(3)}()) {{ {mm.group(1)}.{mm.group(3)}() }}, Ghost(|{mm.group(1)}: {T}| {mm.group(1)}.{mm.group(3)}())", end + mm.end()
                    elif mc: m, end = "filter_count", end + mc.end()
                    elif ml: m, end = "filter_collect", end + ml.end()
                    else: continue
                new = f"{rec}.vx_{m}{suffix}({args})"
            text = text[:toks[rs].a] + new + text[end:]
            done_upto = toks[rs].a + len(rec) + 1
            k = f".{m}(closure) -> contract-bearing vx_{m}{suffix}(closure, ghost predicate with the closure's body)"
            log[k] = log.get(k, 0) + 1
            break
        else: return text

def in_array(toks, i):
    d = 0
    for j in range(i - 1, -1, -1):
        if toks[j].s in ")]}": d += 1
        if toks[j].s in "([{":
            if d == 0: return toks[j].s == "["
            d -= 1
    return False

def pub_fields(txt):
    toks, d, out, last = lex(txt), 0, [], 0
    for i, t in enumerate(toks):
        if t.s in "([{<": d += 1
        elif t.s in ")]}>": d -= 1
        elif d == 1 and re.fullmatch(r"\w+", t.s) and i + 1 < len(toks) and toks[i + 1].s == ":" and toks[i - 1].s in "{,": out += [txt[last:t.a], "pub "]; last = t.a
    return "".join(out) + txt[last:]

def lit(s): return "[" + ", ".join(f"0x{b:02x}u8" for b in s.encode()) + "]"

def lower_strings(text, log):
    """match on string literals -> if/else chain of comparisons; four-letter literals -> vx_lit4"""
    while True:
        toks = lex(text)
        done = True
        for i, t in enumerate(toks):
            if not (t.k == "id" and t.s == "match"): continue
            o = i + 1
            while toks[o].s != "{": o = match_close(toks, o) + 1 if toks[o].s in "([" else o + 1
            end = match_close(toks, o)
            if not re.match(r'\s*"', text[toks[o].b:]) and not re.match(r'(\s|//[^\n]*\n|\x01\d+\x02)*"', text[toks[o].b:]): continue
            j, arms, ok = o + 1, [], True
            while j < end:
                k = j
                while not (toks[k].s == "=" and toks[k + 1].s == ">" and toks[k + 1].a == toks[k].b): k += 1
                names = [x.s for x in toks[j:k] if x.s != "|"]
                if not all(n == "_" or n.startswith('"') for n in names): ok = False; break
                b = k + 2
                if toks[b].s == "{":
                    c = match_close(toks, b); body = text[toks[b].a:toks[c].b]; j = c + 1
                    if j < end and toks[j].s == ",": j += 1
                else:
                    c = b
                    while c < end and toks[c].s != ",": c = match_close(toks, c) + 1 if toks[c].s in "{([" else c + 1
                    body = "{ " + text[toks[b].a:toks[c - 1].b] + " }"; j = c + 1
                arms.append((names, body))
            if not ok or not arms or arms[-1][0] != ["_"]: continue
            x = re.sub(r"\.as_str\(\)\s*$", "", text[toks[i + 1].a:toks[o - 1].b])
            v = f"vx_s{log.get('match on string literals -> if/else chain', 0)}"
            def cond(n):
                raw = n[1:-1]
                return f"{v}.is_lit4({lit(raw)[1:-1]})" if len(raw) == 4 else f"{v}.is_lit(&{lit(raw)})"
            out = " else ".join(("if " + " || ".join(cond(n) for n in ns) + " " if ns != ["_"] else "") + b for ns, b in arms)
            tail = 1 if toks[end].s == "}" and end + 1 < len(toks) and toks[end + 1].s == ";" else 0
            out = "{ let " + v + " = " + ("" if x.endswith(")") else "&") + x + "; " + out + " }"
            old = text[t.a:toks[end].b]
            if sorted(re.findall("\x01\\d+\x02", old)) != sorted(re.findall("\x01\\d+\x02", out)): ok = False; continue
            text = text[:t.a] + out + text[toks[end].b:]
            log["match on string literals -> if/else chain"] = log.get("match on string literals -> if/else chain", 0) + 1
            done = False; break
        if done: break
    toks = lex(text)
    out, last, i = [], 0, 0
    while i < len(toks):
        t = toks[i]
        if t.s == "!" and toks[i - 1].s in ("io_error", "io_error_plain", "assert", "assert_eq"): i = match_close(toks, i + 1) + 1; continue
        if t.s.startswith('"') and len(t.s) == 6 and re.fullmatch(r'"[\w ]{4}"', t.s):
            out.append(text[last:t.a]); out.append(("" if re.search(r"(==|!=|\bfrom\()\s*$", text[:t.a]) else "&" if toks[i - 1].s in "(," and not in_array(toks, i) else "") + "vx_lit4(" + lit(t.s[1:-1])[1:-1] + ")"); last = t.b
            log["string literal -> vx_lit4"] = log.get("string literal -> vx_lit4", 0) + 1
        elif t.s.startswith('"') and [x.s for x in toks[i - 3:i]] == [".", "starts_with", "("] and "\\" not in t.s:
            out.append(text[last:toks[i - 2].a] + "vx_starts_with(&" + lit(t.s[1:-1])); last = t.b
            log["starts_with(literal) -> contract-bearing, literal as bytes"] = log.get("starts_with(literal) -> contract-bearing, literal as bytes", 0) + 1
        elif t.s.startswith('b"') and toks[i - 1].s != "*" and "\\" not in t.s:
            sw = [x.s for x in toks[i - 3:i]] == [".", "starts_with", "("]
            out.append(text[last:toks[i - 2].a] + "vx_starts_with(" if sw else text[last:t.a]); out.append("&" + lit(t.s[2:-1])); last = t.b
            log["byte string -> array of bytes"] = log.get("byte string -> array of bytes", 0) + 1
        i += 1
    out.append(text[last:])
    return "".join(out)

def lower_const_match(text, log):
    """match x { A | B => .., _ => .. } over named constants -> if x == A || x == B { .. } else { .. }
    (Verus has no meaning for constants as patterns)"""
    while True:
        toks = lex(text)
        done = True
        for i, t in enumerate(toks):
            if not (t.k == "id" and t.s == "match" and i + 2 < len(toks) and toks[i + 1].k == "id" and toks[i + 2].s == "{"): continue
            end = match_close(toks, i + 2)
            j, arms, ok = i + 3, [], True
            while j < end:
                k = j
                while not (toks[k].s == "=" and toks[k + 1].s == ">" and toks[k + 1].a == toks[k].b): k += 1
                pat = toks[j:k]
                if any(not (x.k == "id" or x.s in ":|") for x in pat): ok = False; break
                names = [[]]
                for x in pat:
                    if x.s == "|": names.append([])
                    else: names[-1].append(x)
                names = [text[n[0].a:n[-1].b] for n in names if n]
                if not all(n == "_" or re.fullmatch(r"(?:\w+::)*[A-Z][A-Z0-9_]*", n) for n in names): ok = False; break
                b = k + 2
                if toks[b].s == "{":
                    c = match_close(toks, b); body = text[toks[b].a:toks[c].b]; j = c + 1
                    if j < end and toks[j].s == ",": j += 1
                else:
                    c = b
                    while c < end and toks[c].s != ",": c = match_close(toks, c) + 1 if toks[c].s in "{([" else c + 1
                    body = "{ " + text[toks[b].a:toks[c - 1].b] + " }"; j = c + 1
                arms.append((names, body))
            if not ok or not arms or arms[-1][0] != ["_"] or len(arms) < 2: continue
            x = toks[i + 1].s
            out = " else ".join(("if " + " || ".join(f"{x} == {n}" for n in ns) + " " if ns != ["_"] else "") + b for ns, b in arms)
            # keep annotation marks that stand between the arms out of harm's way: only if none gets lost
            old = text[t.a:toks[end].b]
            if sorted(re.findall("\x01\\d+\x02", old)) != sorted(re.findall("\x01\\d+\x02", out)): continue
            text = text[:t.a] + out + text[toks[end].b:]
            log["match on named constants -> if/else chain"] = log.get("match on named constants -> if/else chain", 0) + 1
            done = False; break
        if done: return text

_EXP = {}
def expanded(repo, modpath):
    """the part of the macro-expanded crate (rustc -Zunpretty=expanded) that is the module `modpath` (a/b/c)"""
    if repo not in _EXP:
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        out = os.path.join(here, "build", "expanded.rs"); os.makedirs(os.path.dirname(out), exist_ok=True)
        env = dict(os.environ, RUSTUP_TOOLCHAIN="nightly", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="",
                   CARGO_TARGET_DIR=os.path.join(here, "build", "nightly"))
        env.pop("RUSTFLAGS", None)
        # a fresh codegen request every time: cargo prints nothing for an up-to-date crate
        p = subprocess.run(["cargo", "rustc", "--offline", "--lib", "--manifest-path", os.path.join(repo, "Cargo.toml"), "--",
                            "-Zunpretty=expanded", f"--cfg=vx_run_{os.getpid()}", "-Aunexpected_cfgs"],
                           env=env, capture_output=True, text=True, timeout=600)
        if p.returncode != 0 or len(p.stdout) < 1000: raise ExtractError("macro expansion failed: " + p.stderr[-300:])
        _EXP[repo] = p.stdout
    src = _EXP[repo]
    for part in modpath.split("/"):
        toks = lex(src)
        for i, t in enumerate(toks):
            if t.s == "mod" and toks[i + 1].s == part and toks[i + 2].s == "{":
                src = src[toks[i + 2].b:toks[match_close(toks, i + 2)].a]; break
        else: raise ExtractError(f"module {modpath} not found")
    return File("@" + modpath, src)

def fingerprint(text):
    return hashlib.sha256(" ".join(t.s for t in lex(text)).encode()).hexdigest()[:16]

class Unit:
    def __init__(self, repo, proofs, name):
        self.repo, self.proofs, self.name = repo, proofs, name
        self.files, self.log, self.fnmap, self.notes, self.mismatch = {}, {}, [], [], {}
        self.fps, self.under_contract, self.auto = {}, [], []
        self.out, self.rules, self.elems = [], [], {}
        self.flags = []
        tmpl = open(os.path.join(proofs, name + ".rs"), encoding="utf-8").read().split("\n")
        self.lines = self._expand(tmpl)
        self._wanted = set()
        self._process()

    def _expand(self, lines):
        out = []
        for l in lines:
            m = re.match(r"\s*//# include (\S+)(?: (statements))?", l)
            if m:
                t = open(os.path.join(self.proofs, m.group(1)), encoding="utf-8").read()
                if m.group(2):                        # lemmas that another unit proves: only their statements
                    t = re.sub(r"(?m)^pub proof fn", "#[verifier::external_body] pub proof fn", t)
                    t = re.sub(r"(?m)^\{.*\}$", "{}", t)
                out += self._expand(t.split("\n"))
            else: out.append(l)
        return out

    def file(self, path):
        if path not in self.files:
            if path.startswith("@"):
                self.files[path] = expanded(self.repo, path[1:])
                return self.files[path]
            p = os.path.join(self.repo, path)
            if not os.path.exists(p): raise ExtractError(f"file {path} is gone")
            try: self.files[path] = File(p)
            except Exception as e: raise ExtractError(f"cannot scan {path}: {e!r}")
        return self.files[path]

    def _process(self):
        L, i = self.lines, 0
        self.seen_fns = []
        while i < len(L):
            l = L[i]
            m = re.match(r"\s*//# (\w+)(.*)$", l)
            if not m: self.out.append(l); i += 1; continue
            kw, rest = m.group(1), m.group(2).strip()
            if kw == "rule":
                nm, a, b = re.match(r"(.*?) /(.*)/ => /(.*)/$", rest).groups()
                self.rules.append((nm, re.compile(a), b)); i += 1; continue
            if kw == "flags":                             # arguments for the verifier; what precedes is verified by another unit
                self.flags += rest.split(); self.under_contract = []; i += 1; continue
            if kw == "elem":
                for nm in rest.split()[1:]: self.elems[nm] = rest.split()[0]
                i += 1; continue
            if kw == "specfn":                        # a spec twin: the same body as a mathematical function
                path, nm, owner, alias = re.match(r"(\S+) (\w+) in (\S+) as (\w+)", rest).groups()
                c = self.file(path).fn(nm, owner)
                if len(c) != 1: raise ExtractError(f"function {nm} not found (or ambiguous) in {path}")
                fn = c[0]
                if fn.loops(): raise ExtractError(f"function {nm} is no longer a plain expression")
                txt = fn.src[fn.params[0]:fn.end]
                txt = lower(txt, self.log, self.rules, self.elems)
                self.log["spec twin of a pure function"] = self.log.get("spec twin of a pure function", 0) + 1
                txt = re.sub(r"\breturn\s+([^;]*);\s*\}\s*$", r"\1 }", txt)
                self.out += (f"pub open spec fn {alias}" + txt).split("\n"); i += 1; continue
            if kw == "variants":
                path, nm, skip, tmpl = re.match(r"(\S+) (\w+) -(\S*) /(.*)/$", rest).groups()
                try: txt = self.file(path).item("enum", nm)
                except KeyError as e: raise ExtractError(f"lost item {e}")
                for v in re.findall(r"[{,]\s*(?:#\[[^\]]*\]\s*)*(\w+)\s*(?=\(|,|\}|=|\{)", txt[txt.index("{"):]):
                    if v in skip.split(","): continue
                    self.out.append(tmpl.replace("$V", v).replace("$L", lit(v)[1:-1]))
                i += 1; continue
            if kw == "item":
                path, k, nm = rest.split()[:3]
                try: txt = self.file(path).item(k, nm)
                except KeyError as e: raise ExtractError(f"lost item {e}")
                subs = re.findall(r"s/((?:[^/\\]|\\.)*)/((?:[^/\\]|\\.)*)/", rest)
                for a, b in subs: txt = re.sub(a, b, txt)
                if k == "const" and re.search(r":\s*&str\b", txt): txt = re.sub(r":\s*&str\b", ": &'static str", txt)
                else: txt = lower(txt, self.log, self.rules, self.elems)
                if k == "struct": txt = pub_fields(txt)
                if k != "impl": txt = "pub " + re.sub(r"^pub(\([a-z]+\))?\s+", "", txt)
                self.fps[f"{path}::{nm}"] = fingerprint(txt)
                self.out += txt.split("\n"); i += 1; continue
            if kw == "fn":
                secs, cur = [], None
                j = i + 1
                while not re.match(r"\s*//# end\b", L[j]):
                    mm = re.match(r"\s*//# (.*)$", L[j])
                    if mm: cur = [mm.group(1).strip(), []]; secs.append(cur)
                    elif cur is not None: cur[1].append(L[j])
                    j += 1
                self._emit_fn(rest, secs); i = j + 1; continue
            if kw == "helpers":
                self._emit_helpers(); i += 1; continue
            raise ExtractError(f"bad directive {l}")

    def _emit_fn(self, rest, secs):
        m = re.match(r"(\S+) (\w+)(?: in (.+?))?(?: as (\w+))?(?: -> (\w+))?(?: (optional))?$", rest)
        if not m: raise ExtractError("bad fn directive " + rest)
        path, name, owner, alias, ret, optional = m.groups()
        f = self.file(path)
        c = f.fn(name, owner)
        if owner and len(c) > 1: c = [x for x in c if re.search(r"(?<!\w)" + re.escape(owner) + r"(?!\w)", x.owner)] or c
        if not c:
            if optional: return
            raise ExtractError(f"function {name} not found in {path}")
        if len(c) > 1: raise ExtractError(f"function {name} is ambiguous in {path}")
        self.seen_fns.append((path, name))
        self._emit(f, c[0], ret, secs, alias)

    def _emit(self, f, fn, ret, secs, alias=None, auto=False):
        ed = []                                       # (pos, text) insertions; or (a, b, text) replacements
        key = f"{f.path.split(self.repo + '/')[-1]}::{fn.name}"
        self.fps[key] = fingerprint(fn.text())
        bad = []
        loops = fn.loops()
        annotated, indexed, itermut, late = set(), set(), set(), []
        attr, replace = "", []
        if fn.ret and ret:
            ed.append((fn.ret[1], fn.ret[1], f"({ret}: ")); ed.append((fn.ret[2], fn.ret[2], ")"))
        elif ret and not fn.ret:
            bad.append("no return type")
        spec = ""
        for head, body in secs:
            txt = "\n".join(body)
            w = head.split()
            if w[0] == "spec": spec = txt
            elif w[0] == "attr": attr = txt
            elif w[0] == "begin": ed.append((fn.body[0] + 1, fn.body[0] + 1, "\n" + txt + "\n"))
            elif w[0] == "bottom": ed.append((fn.body[1] - 1, fn.body[1] - 1, "\n" + txt + "\n"))
            elif w[0] == "loop":
                n = int(w[1])
                if n >= len(loops): bad.append(f"loop {n} is gone"); continue
                annotated.add(n)
                k, a, b, e = loops[n]
                if len(w) == 2 and not txt.strip(): pass          # the loop is replaced as a whole by a rule
                elif len(w) == 2 or w[2] in ("for", "while", "loop"):
                    if len(w) > 2 and w[2] != k: bad.append(f"loop {n} is a {k}, contract was for a {w[2]}")
                    ed.append((b, b, "\n" + txt + "\n"))
                elif w[2] == "cursor":
                    itermut.add(n); ed.append((b, b, "\n" + txt + "\n"))
                elif w[2] == "index":
                    indexed.add(n); ed.append((b, b, "\n" + txt + "\n"))
                elif w[2] == "in": late.append((b + 1, b + 1, "\n" + txt + "\n"))   # like begin, but behind what a lowered loop binds
                elif w[2] == "begin": ed.append((b + 1, b + 1, "\n" + txt + "\n"))
                elif w[2] == "end": ed.append((e, e, "\n" + txt + "\n"))
                elif w[2] == "after": ed.append((e + 1, e + 1, "\n" + txt + "\n"))
                elif w[2] == "before": ed.append((a, a, "\n" + txt + "\n"))
                elif w[2] == "iter":                 # name the ghost iterator of a for loop: for x in NAME: expr
                    mm = re.compile(r"\bin\b").search(fn.src, a)
                    ed.append((mm.end(), mm.end(), " " + txt.strip() + ":"))
                else: raise ExtractError("bad loop section " + head)
            elif w[0] in ("before", "after"):
                rx = re.search(r"/(.*)/", head).group(1)
                mm = re.compile(rx).search(fn.src, fn.body[0], fn.body[1])
                if not mm: bad.append(f"anchor /{rx}/ is gone"); continue
                p = mm.start() if w[0] == "before" else mm.end()
                ed.append((p, p, "\n" + txt + "\n"))
            elif w[0] == "sub":
                a, b = re.match(r"sub /(.*)/ => /(.*)/", head).groups()
                replace.append((a, b))
            else: raise ExtractError("bad section " + head)
        for n in range(len(loops)):
            if n not in annotated: bad.append(f"loop {n} has no contract")
            k, a, b, e = loops[n]
            inner = fn.src[b:e]
            mm = re.fullmatch(r"for\s+(\w+)\s+in\s+(.*?)\.\.=(.*?)\s*", fn.src[a:b], re.S)
            if k == "for" and mm:
                ed.append((a, b, f"let vx_h{n} = {mm.group(3)}; let mut vx_n{n} = {mm.group(2)}; let mut vx_g{n} = vx_n{n} <= vx_h{n}; while vx_g{n} "))
                ed.append((b + 1, b + 1, f" let {mm.group(1)} = vx_n{n}; if vx_n{n} == vx_h{n} {{ vx_g{n} = false; }} else {{ vx_n{n} += 1; }} "))
                self.log["for over ..= -> while"] = self.log.get("for over ..= -> while", 0) + 1
                continue
            mm = re.fullmatch(r"for\s+(\w+)\s+in\s+&mut\s+([\w.]+)\s*", re.sub(r"\bin\s+([\w.]+)\.iter_mut\(\)(\s*)$", r"in &mut \1\2", fn.src[a:b]))
            if k == "for" and mm and n in itermut:
                ed.append((a, b, f"let mut vx_m{n} = vx_iter_mut(&mut {mm.group(2)}); let ghost vx_w{n} = vx_m{n}.will(); while let Some({mm.group(1)}) = vx_m{n}.next() "))
                self.log["for over &mut -> while let over its iterator"] = self.log.get("for over &mut -> while let over its iterator", 0) + 1
                continue
            if k == "for" and mm:
                ed.append((a, b, f"let mut vx_i{n}: usize = 0; while vx_i{n} < {mm.group(2)}.len() "))
                ed.append((b + 1, b + 1, f" let {mm.group(1)} = &mut {mm.group(2)}[vx_i{n}]; vx_i{n} += 1; "))
                self.log["for over &mut -> while with index"] = self.log.get("for over &mut -> while with index", 0) + 1
                continue
            mm = re.fullmatch(r"for\s+\(\s*(\w+)\s*,\s*(\w+)\s*\)\s+in\s+([\w.]+)\.iter_mut\(\)\.zip\((\w+)\)\s*", fn.src[a:b])
            if k == "for" and mm:
                x, y, v, w = mm.groups()
                ed.append((a, b, f"let mut vx_z{n}: usize = 0; while vx_z{n} < {v}.len() && vx_z{n} < {w}.len() "))
                ed.append((b + 1, b + 1, f" let {x} = &mut {v}[vx_z{n}]; let {y} = {w}[vx_z{n}]; vx_z{n} += 1; "))
                self.log["for over zip of iter_mut -> while with index"] = self.log.get("for over zip of iter_mut -> while with index", 0) + 1
                continue
            mm = re.fullmatch(r"for\s+(\w+)\s+in\s+(&?[\w.()]+?)\s*", fn.src[a:b])
            if k == "for" and mm and n in indexed:
                over = re.sub(r"^(.*)\.iter\(\)$", r"&\1", mm.group(2))
                ed.append((a, b, f"let vx_e{n} = {over}; let mut vx_i{n}: usize = 0; while vx_i{n} < vx_e{n}.len() "))
                ed.append((b + 1, b + 1, f" let {mm.group(1)} = &vx_e{n}[vx_i{n}]; vx_i{n} += 1; "))
                self.log["for -> while with index"] = self.log.get("for -> while with index", 0) + 1
                continue
            if k == "for" and re.search(r"\bcontinue\b", inner):
                # Verus has no `continue` in for loops: the same loop with an explicit index
                mm = re.fullmatch(r"for\s+(\w+)\s+in\s+(\w+)\s*\.\.\s*(\w+)\s*", fn.src[a:b])
                if mm:
                    ed.append((a, b, f"let vx_h{n} = {mm.group(3)}; let mut vx_n{n} = {mm.group(2)}; while vx_n{n} < vx_h{n} "))
                    ed.append((b + 1, b + 1, f" let {mm.group(1)} = vx_n{n}; vx_n{n} += 1; "))
                    self.log["for with continue -> while"] = self.log.get("for with continue -> while", 0) + 1
                    continue
                mm = re.fullmatch(r"for\s+(\w+)\s+in\s+(&?\s*(?:mut\s)?[\w.]+)\s*", fn.src[a:b])
                if not mm: bad.append(f"loop {n}: for with continue over a compound expression"); continue
                ed.append((a, b, f"let vx_e{n} = {mm.group(2)}; let mut vx_i{n}: usize = 0; while vx_i{n} < vx_e{n}.len() "))
                ed.append((b + 1, b + 1, f" let {mm.group(1)} = &vx_e{n}[vx_i{n}]; vx_i{n} += 1; "))
                self.log["for with continue -> while with index"] = self.log.get("for with continue -> while with index", 0) + 1
        ed += late
        ed.append((fn.sig_end, fn.sig_end, "\n" + spec + "\n"))
        if alias:
            mm = re.compile(r"\bfn\s+(\w+)").search(fn.src, fn.start)
            ed.append((mm.start(1), mm.end(1), alias))
        # stable order for equal positions: original order
        ed = [(a, b, k, t) for k, (a, b, t) in enumerate([(x[0], x[1], x[2]) for x in ed])]
        ed.sort()
        # lower source pieces between the edits separately so that annotations are not rewritten
        MARK = "\u0001%d\u0002"
        s, last, ins = [], fn.start, []
        for a, b, k, t in ed:
            s.append(fn.src[last:a]); s.append(MARK % len(ins)); ins.append(t); last = b
        s.append(fn.src[last:fn.end])
        text = lower("".join(s), self.log, self.rules, self.elems)
        for a, b in replace:
            text, n = re.subn(a, b, text)
            if n: self.log[f"{fn.name}: /{a}/ -> /{b}/"] = n
            else: bad.append(f"substitution /{a}/ no longer applies")
        text = re.sub("\u0001(\\d+)\u0002", lambda m: ins[int(m.group(1))], text)
        if attr: text = attr + "\n" + text
        start = len(self.out) + 1
        self.out += text.split("\n")
        self.fnmap.append((start, len(self.out), key, auto))
        self.under_contract.append(key) if not auto else self.auto.append(key)
        if bad: self.mismatch[key] = bad
        self._wanted |= fn.calls()
        fn_m = fn.mcalls()
        self._wanted_m = getattr(self, "_wanted_m", set()) | fn_m

    def _emit_helpers(self):
        """functions of the same source files that extracted functions call but no template mentions (new helpers):
        included without a contract, so that the caller at least resolves; the caller's proof may then need one"""
        while True:
            have = set(re.findall(r"\bfn\s+(\w+)", "\n".join(self.out + self.lines)))
            todo = []
            for path in {p for p, _ in self.seen_fns}:
                f = self.files[path]
                for fn in f.fns:
                    if fn.owner is None and fn.name in self._wanted and fn.name not in have and fn.has_body:
                        todo.append((f, fn))
            if not todo: return
            for f, fn in todo:
                self._emit(f, fn, None, [], auto=True)

    def text(self): return "\n".join(self.out) + "\n"
    def locate(self, line):
        for a, b, k, auto in self.fnmap:
            if a <= line <= b: return k
        return None
