"""A small Rust tokenizer with source spans (comments dropped, spans kept)."""
import re

class LostAnchor(Exception):
    pass

_ID = re.compile(r"(?:r#)?[A-Za-z_][A-Za-z0-9_]*")
_NUM = re.compile(r"0[xob][0-9a-fA-F_]+[iu0-9a-z]*|[0-9][0-9_]*(?:\.[0-9][0-9_]*)?(?:[eE][+-]?[0-9_]+)?[A-Za-z0-9_]*")

class Tok:
    __slots__ = ("k", "t", "s", "e")
    def __init__(self, k, t, s, e):
        self.k, self.t, self.s, self.e = k, t, s, e
    def __repr__(self):
        return f"{self.k}:{self.t}"

def tokenize(src):
    toks = []
    i, n = 0, len(src)
    while i < n:
        c = src[i]
        if c.isspace():
            i += 1
            continue
        if src.startswith("//", i):
            j = src.find("\n", i)
            i = n if j < 0 else j
            continue
        if src.startswith("/*", i):
            d, j = 1, i + 2
            while j < n and d:
                if src.startswith("/*", j):
                    d += 1; j += 2
                elif src.startswith("*/", j):
                    d -= 1; j += 2
                else:
                    j += 1
            i = j
            continue
        m = re.compile(r'(?:b|c)?r(#*)"').match(src, i)
        if m:
            end = '"' + m.group(1)
            j = src.find(end, m.end())
            j = n if j < 0 else j + len(end)
            toks.append(Tok("str", src[i:j], i, j)); i = j
            continue
        if c == '"' or (c in "bc" and src.startswith('"', i + 1)):
            j = i + (1 if c == '"' else 2)
            while j < n and src[j] != '"':
                j += 2 if src[j] == "\\" else 1
            j += 1
            toks.append(Tok("str", src[i:j], i, j)); i = j
            continue
        if c == "'":
            m = re.compile(r"'(?:\\(?:x[0-9a-fA-F]{2}|u\{[0-9a-fA-F_]+\}|.)|[^\\'])'").match(src, i)
            if m:
                toks.append(Tok("chr", m.group(), i, m.end())); i = m.end()
                continue
            m = re.compile(r"'[A-Za-z_][A-Za-z0-9_]*").match(src, i)
            toks.append(Tok("life", m.group(), i, m.end())); i = m.end()
            continue
        m = _ID.match(src, i)
        if m:
            toks.append(Tok("id", m.group(), i, m.end())); i = m.end()
            continue
        m = _NUM.match(src, i)
        if m:
            t = m.group()
            # `0..5` : the regexp needs a digit after the dot, so it never eats a range
            toks.append(Tok("num", t, i, i + len(t))); i += len(t)
            continue
        toks.append(Tok("p", c, i, i + 1)); i += 1
    return toks

OPEN = {"(": ")", "[": "]", "{": "}"}
CLOSE = {v: k for k, v in OPEN.items()}

def match_brackets(toks):
    """index of open token -> index of its close token (and back)"""
    st, mt = [], {}
    for i, t in enumerate(toks):
        if t.k == "p":
            if t.t in OPEN:
                st.append(i)
            elif t.t in CLOSE:
                if not st:
                    raise LostAnchor("unbalanced brackets")
                j = st.pop()
                mt[j] = i
                mt[i] = j
    return mt

def norm(toks):
    """a canonical text for a token sequence"""
    out = []
    for t in toks:
        out.append(t.t)
    return " ".join(out)

def normtext(s):
    return norm(tokenize(s))

def skip_generics(toks, i):
    """toks[i] is '<'; return index just after the matching '>'"""
    d = 0
    while i < len(toks):
        t = toks[i].t
        if t == "<":
            d += 1
        elif t == ">" and not (toks[i - 1].t in "-=" and toks[i - 1].e == toks[i].s):
            d -= 1
            if d == 0:
                return i + 1
        i += 1
    raise LostAnchor("generics")

class Fn:
    """a function item: all positions are token indices in .toks"""
    def __init__(self, src, toks, mt, i):
        # toks[i] is 'fn'
        self.src, self.toks, self.mt, self.i = src, toks, mt, i
        self.name = toks[i + 1].t
        j = i + 2
        self.gen = None
        if toks[j].t == "<":
            k = skip_generics(toks, j)
            self.gen = (j, k)
            j = k
        if toks[j].t != "(":
            raise LostAnchor("fn " + self.name)
        self.par = (j, mt[j])
        j = mt[j] + 1
        self.ret = None
        if toks[j].t == "-" and toks[j + 1].t == ">":
            k = j + 2
            while toks[k].t not in ("{", ";", "where"):
                if toks[k].t in OPEN:
                    k = mt[k]
                k += 1
            self.ret = (j + 2, k)
            j = k
        self.where = None
        if toks[j].t == "where":
            k = j
            while toks[k].t not in ("{", ";"):
                if toks[k].t in ("(", "["):
                    k = mt[k]
                k += 1
            self.where = (j, k)
            j = k
        self.body = (j, mt[j]) if toks[j].t == "{" else None
        # qualifiers before fn
        q = i
        while q > 0 and toks[q - 1].t in ("pub", "const", "unsafe", "crate", ")", "(", "super", "async", "default") and toks[q-1].t not in (";","}"):
            if toks[q - 1].t == ")":
                o = mt[q - 1]
                if o > 0 and toks[o - 1].t == "pub":
                    q = o
                else:
                    break
            elif toks[q-1].t == "(":
                break
            else:
                q -= 1
        self.quals = (q, i)

    def text(self, rng):
        a, b = rng
        if a >= b:
            return ""
        return self.src[self.toks[a].s:self.toks[b - 1].e]

class Source:
    def __init__(self, src):
        self.src = src
        self.toks = tokenize(src)
        self.mt = match_brackets(self.toks)
        self.skip = self._test_ranges()

    def _test_ranges(self):
        out = []
        T = self.toks
        for i, t in enumerate(T):
            if t.t == "mod" and i + 2 < len(T) and T[i + 2].t == "{" and T[i + 1].t in ("tests", "test", "testing"):
                out.append((i, self.mt[i + 2]))
        return out

    def _skipped(self, i):
        return any(a <= i <= b for a, b in self.skip)

    def macro_body(self, name):
        T = self.toks
        for i, t in enumerate(T):
            if t.t == "macro_rules" and T[i + 1].t == "!" and T[i + 2].t == name:
                return self.src[T[i + 3].s:T[self.mt[i + 3]].e]
        raise LostAnchor(f"macro {name}")

    def macro_params(self, name):
        T = self.toks
        for i, t in enumerate(T):
            if t.t == "macro_rules" and T[i + 1].t == "!" and T[i + 2].t == name:
                o = i + 4
                return [T[k + 1].t for k in range(o, self.mt[o]) if T[k].t == "$" and T[k + 1].k == "id"]
        raise LostAnchor(f"macro {name}")

    def macro_calls(self, name):
        T = self.toks
        out = []
        for i, t in enumerate(T):
            if t.t == name and T[i + 1].t == "!" and T[i + 2].t == "(" and (i == 0 or T[i - 1].t != "macro_rules"):
                o = i + 2
                args, cur, d = [], o + 1, 0
                for k in range(o + 1, self.mt[o] + 1):
                    if T[k].t == "<":
                        d += 1
                    if T[k].t == ">":
                        d -= 1
                    if (T[k].t == "," and d == 0) or k == self.mt[o]:
                        if k > cur:
                            args.append(self.src[T[cur].s:T[k - 1].e])
                        cur = k + 1
                out.append(args)
        return out

    def impls(self):
        T = self.toks
        for i, t in enumerate(T):
            if t.t in ("impl", "trait") and t.k == "id" and not self._skipped(i):
                # an item, not `-> impl Trait`
                if i > 0 and T[i - 1].t not in ("}", ";", "{", "]", "unsafe", "pub", ")", "("):
                    continue
                if i > 0 and T[i - 1].t == "(" :
                    # macro repetition `$( impl ...`
                    if not (i > 1 and T[i - 2].t == "$"):
                        continue
                k = i
                while k < len(T) and T[k].t not in ("{", ";"):
                    if T[k].t in ("(", "["):
                        k = self.mt.get(k, k)
                    k += 1
                if k < len(T) and T[k].t == "{":
                    yield i, k, norm(T[i:k])

    def fns(self, lo=0, hi=None):
        T = self.toks
        hi = len(T) if hi is None else hi
        for i in range(lo, hi):
            if T[i].t == "fn" and T[i].k == "id" and T[i + 1].k == "id" and not self._skipped(i):
                yield Fn(self.src, T, self.mt, i)

    def find_fn(self, impl, name):
        """impl: None for a free function, or a text whose tokens must all occur, in
        order and adjacent, in the impl header"""
        if impl:
            want = normtext(impl)
            found = []
            for i, k, h in self.impls():
                h2 = self._nogen(i, k)
                if h == want or h2 == want or h.startswith(want + " where") or (" " + h + " ").find(" " + want + " ") >= 0:
                    for f in self.fns(k, self.mt[k]):
                        if f.name == name:
                            # direct children only
                            if self._parent_brace(f.i) == k:
                                found.append((0 if h == want or h2 == want else 1, f))
            if found:
                found.sort(key=lambda x: x[0])
                return found[0][1]
        cand = [f for f in self.fns() if f.name == name]
        if not impl:
            tops = [f for f in cand if self._parent_brace(f.i) is None or self.toks[self._parent_brace(f.i)-2:][0].t == "mod"]
            if len(tops) >= 1:
                return tops[0]
        if len(cand) == 1:
            return cand[0]
        raise LostAnchor(f"function {impl or ''}::{name} not found ({len(cand)} candidates)")

    def _nogen(self, i, k):
        # the impl header without its leading generics and without a where clause
        T = self.toks
        j = i + 1
        if T[j].t == "<":
            j = skip_generics(T, j)
        e = j
        while e < k and T[e].t != "where":
            e += 1
        return norm(T[i:i + 1] + T[j:e])

    def _parent_brace(self, i):
        # innermost open '{' containing token i
        best = None
        for o, c in self.mt.items():
            if o < c and o < i < c and self.toks[o].t == "{":
                if best is None or o > best:
                    best = o
        return best

    def find_struct(self, name):
        T = self.toks
        for i, t in enumerate(T):
            if t.t in ("struct", "enum") and T[i + 1].t == name and not self._skipped(i):
                k = i + 2
                while T[k].t not in ("{", ";", "("):
                    if T[k].t == "[":
                        k = self.mt[k]
                    k += 1
                end = self.mt[k] if T[k].t in "{(" else k
                if T[k].t == "(":
                    end = end + 1  # ';'
                q = i
                if q > 0 and T[q - 1].t == "pub":
                    q -= 1
                elif q > 0 and T[q - 1].t == ")" and T[self.mt[q - 1] - 1].t == "pub":
                    q = self.mt[q - 1] - 1
                return self.src[T[q].s:T[end].e], (i, k, end)
        raise LostAnchor(f"type {name}")
