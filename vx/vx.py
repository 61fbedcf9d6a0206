"""Mechanical extraction of Rust functions from /repo's current source into Verus text.

A fragment (specs/*.vrs) is Verus text with `//@` directives.  A `//@ fn` block names one
function of /repo; the function's own text (signature and body) is copied out of the current
source, and the contract, loop invariants, closure contracts and proof statements written in
the block are spliced in.  Nothing else of the text changes except what `//@ rewrite` lines
state explicitly (these are listed in the evidence), dropped attributes and visibility.
"""
import json, os, re, sys
from rusttok import *

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
SPECS = os.path.join(os.path.dirname(HERE), "specs")
KEYWORDS = {"mut", "ref", "box", "move", "in", "if", "else", "let", "for", "self", "Some", "None", "Ok", "Err", "true", "false", "const", "fn", "impl", "dyn", "where", "as"}

class Ctx:
    def __init__(self):
        self.sources = {}
        self.lost = []          # (function, reason)
        self.dropped = []       # textual notes: rewrites
        self.functions = []     # dicts
        self.items = []
        self.base = {}
        self.record = None
        self.contract_only = False   # emit contracts, not bodies (context fragments)
        self.assumed = []       # contracts used as context, discharged by another unit

def load(ctx, f):
    if f not in ctx.sources:
        p = os.path.join(REPO, f)
        try:
            with open(p, encoding="utf-8") as h:
                ctx.sources[f] = Source(h.read())
        except FileNotFoundError:
            raise LostAnchor(f"file {f} is gone")
    return ctx.sources[f]

def subst_macro(text, m):
    for k in sorted(m, key=len, reverse=True):
        text = re.sub(r"\$" + k + r"\b", m[k], text)
    return text

def macro_source(ctx, f, name, m):
    key = f"{f}#{name}#" + ",".join(f"{k}={v}" for k, v in sorted(m.items()))
    if key not in ctx.sources:
        body = load(ctx, f).macro_body(name)
        ctx.sources[key] = Source(subst_macro(body, m))
    return ctx.sources[key]

# ---------------------------------------------------------------- names of a function
def pattern_ids(toks):
    out = []
    for i, t in enumerate(toks):
        if t.k == "id" and t.t not in KEYWORDS and not t.t[0].isupper():
            nxt = toks[i + 1].t if i + 1 < len(toks) else ""
            prv = toks[i - 1].t if i else ""
            if nxt == "(" or prv == "." or (nxt == ":" and i + 2 < len(toks) and toks[i + 2].t == ":" and toks[i+2].s == toks[i+1].e):
                continue
            out.append(t.t)
    return out

def split_top(toks, sep):
    out, cur, d, a = [], [], 0, 0
    for i, t in enumerate(toks):
        if t.k == "p" and t.t in "([{":
            d += 1
        if t.k == "p" and t.t in ")]}":
            d -= 1
        if t.t == "<":
            a += 1
        if t.t == ">" and not (i and toks[i - 1].t in "-=" and toks[i - 1].e == t.s):
            a = max(0, a - 1)
        if t.t == sep and d == 0 and a == 0:
            out.append(cur); cur = []
        else:
            cur.append(t)
    if cur:
        out.append(cur)
    return out

def params_of(fn):
    T = fn.toks
    ps = []
    for p in split_top(T[fn.par[0] + 1:fn.par[1]], ","):
        k = next((i for i, t in enumerate(p) if t.t == ":" and not (i + 1 < len(p) and p[i + 1].t == ":" and p[i+1].s == t.e)), None)
        if k is None:
            ps.append((norm(p), None))
        else:
            ps.append((fn.src[p[0].s:p[k - 1].e], fn.src[p[k + 1].s:p[-1].e]))
    return ps

def closures(toks, mt, lo, hi):
    """(open '|', close '|', body_lo, body_hi) for the closures in toks[lo:hi]"""
    out = []
    i = lo
    while i < hi:
        t = toks[i]
        if t.t == "|" and t.k == "p":
            p = toks[i - 1]
            if p.t in ("(", ",", "=", "{", ";", "move", "return", ">") and not (p.t == ">" and toks[i-2].t not in "=") or p.t == "}" :
                if toks[i + 1].t == "|" and toks[i + 1].s == t.e:
                    c = i + 1
                else:
                    c = i + 1
                    while toks[c].t != "|":
                        c = mt[c] + 1 if toks[c].t in OPEN else c + 1
                b = c + 1
                if toks[b].t == "-" and toks[b + 1].t == ">":
                    while toks[b].t != "{":
                        b += 1
                if toks[b].t == "{":
                    e = mt[b] + 1
                else:
                    e = b
                    while e < len(toks) and toks[e].t not in (",", ";", ")", "]", "}"):
                        if toks[e].t in OPEN:
                            e = mt[e] + 1
                        else:
                            e += 1
                out.append((i, c, b, e))
                i = c + 1
                continue
        i += 1
    return out

def loops(toks, mt, lo, hi):
    """(keyword index, body '{' index)"""
    out = []
    for i in range(lo, hi):
        t = toks[i]
        if t.k == "id" and t.t in ("for", "while", "loop"):
            if t.t == "for" and toks[i + 1].t == "<":
                continue
            k = i + 1
            while toks[k].t != "{":
                k = mt[k] + 1 if toks[k].t in ("(", "[") else k + 1
            out.append((i, k))
    return out

def local_names(fn):
    T, out = fn.toks, []
    for n, _ in params_of(fn):
        out += pattern_ids(tokenize(n))
    b, e = fn.body
    i = b + 1
    cl = {c[0]: c for c in closures(T, fn.mt, b + 1, e)}
    while i < e:
        t = T[i]
        if t.t == "let" and t.k == "id":
            k = i + 1
            while T[k].t not in ("=", ";", ":") or (T[k].t == ":" and T[k + 1].t == ":" and T[k+1].s == T[k].e) or (T[k].t == ":" and T[k-1].t == ":" and T[k-1].e == T[k].s):
                k = fn.mt[k] + 1 if T[k].t in OPEN and False else k + 1
            out += pattern_ids(T[i + 1:k])
        elif t.t == "for" and t.k == "id" and T[i + 1].t != "<":
            k = i + 1
            while T[k].t != "in":
                k += 1
            out += pattern_ids(T[i + 1:k])
        elif i in cl:
            o, c, _, _ = cl[i]
            out += [x for p in split_top(T[o + 1:c], ",") for x in pattern_ids(p[:next((q for q, y in enumerate(p) if y.t == ":"), len(p))])]
        i += 1
    return out

def rename_text(text, ren):
    if not ren or not text:
        return text
    toks = tokenize(text)
    out, pos = [], 0
    for i, t in enumerate(toks):
        if t.k == "id" and t.t in ren and not (i and toks[i - 1].t == "." ) :
            # keep struct-field labels in literals `name: v` untouched only if shadowing is obvious
            out.append(text[pos:t.s]); out.append(ren[t.t]); pos = t.e
    out.append(text[pos:])
    return "".join(out)

# ---------------------------------------------------------------- helper inlining
def inline_helpers(ctx, src, f, text, depth=0):
    """Inline calls to functions that are not in the recorded baseline of this file
    (helpers extracted by a later edit).  Purely textual beta-reduction."""
    base = ctx.base.get("fns", {}).get(f)
    if base is None or depth > 3:
        return text
    new = {}
    for g in src.fns():
        if g.name not in base and g.body:
            new.setdefault(g.name, g)
    if not new:
        return text
    changed = True
    rounds = 0
    while changed and rounds < 20:
        changed = False
        rounds += 1
        T = tokenize(text)
        mt = match_brackets(T)
        for i, t in enumerate(T):
            if t.k == "id" and t.t in new and i + 1 < len(T) and (i == 0 or T[i - 1].t != "fn"):
                j = i + 1
                if T[j].t == ":" and T[j + 1].t == ":" and T[j + 2].t == "<":
                    j = skip_generics(T, j + 2)
                if T[j].t != "(":
                    continue
                g = new[t.t]
                args = [text[a[0].s:a[-1].e] for a in split_top(T[j + 1:mt[j]], ",")]
                ps = params_of(g)
                start = t.s
                body = g.text((g.body[0] + 1, g.body[1])) if g.body[1] > g.body[0] + 1 else ""
                bt = tokenize(body)
                if any(x.t == "?" for x in bt):
                    raise LostAnchor(f"helper {g.name} uses `?`")
                has_self = bool(ps) and ps[0][1] is None and "self" in ps[0][0]
                lets = ""
                if has_self and T[i - 1].t == ".":
                    # receiver: walk back over a postfix chain
                    r = i - 2
                    while True:
                        if T[r].t in (")", "]"):
                            r = mt[r] - 1
                            if T[r].k == "id" or T[r].t in (")", "]"):
                                continue
                        if T[r].k in ("id", "num") and r > 0 and T[r - 1].t == ".":
                            r -= 2
                            continue
                        break
                    recv = text[T[r].s:T[i - 2].e]
                    start = T[r].s
                    if recv != "self":
                        selfp = ps[0][0].replace(" ", "")
                        lets += f"let self__h = {'&mut ' if '&mut' in selfp else '&' if '&' in selfp else ''}{recv}; "
                        body = rename_text(body, {"self": "self__h"})
                    ps = ps[1:]
                else:
                    k = i
                    while k > 1 and T[k - 1].t == ":" and T[k - 2].t == ":":
                        k -= 3
                        if T[k].t == ">":
                            raise LostAnchor("turbofish path")
                    start = T[k].s
                    if has_self:
                        raise LostAnchor(f"helper {g.name} called by path with self")
                if len(ps) != len(args):
                    raise LostAnchor(f"helper {g.name}: arity")
                # parallel binding through fresh names avoids capture
                for n, ((p, ty), a) in enumerate(zip(ps, args)):
                    lets += f"let __h{rounds}_{n} = {a}; "
                for n, ((p, ty), a) in enumerate(zip(ps, args)):
                    lets += f"let {p} = __h{rounds}_{n}; "
                if any(x.t == "return" for x in bt):
                    if closures(bt, match_brackets(bt), 0, len(bt)):
                        raise LostAnchor(f"helper {g.name}: return inside closures")
                    out, pos = [], 0
                    for q, x in enumerate(bt):
                        if x.t == "return":
                            out.append(body[pos:x.s]); out.append(f"break 'inl{rounds}"); pos = x.e
                    out.append(body[pos:]); body = "".join(out)
                    rep = f"'inl{rounds}: {{ {lets}{body} }}"
                else:
                    rep = f"{{ {lets}{body} }}"
                # a block in expression position needs parentheses when an operator follows
                rep = f"({rep})"
                text = text[:start] + rep + text[T[mt[j]].e:]
                ctx.dropped.append(f"{f}: call of new helper `{g.name}` replaced by its body")
                changed = True
                break
    return text

# ---------------------------------------------------------------- splicing
class Block:
    def __init__(self, kind, args, line):
        self.kind, self.args, self.line = kind, args, line
        self.sections = []   # (name, arg, text)
        self.nested = {}     # fn name -> list of sections

def find_seq(toks, want, lo=0):
    w = [t.t for t in tokenize(want)]
    n = len(w)
    for i in range(lo, len(toks) - n + 1):
        if all(toks[i + k].t == w[k] for k in range(n)):
            return i, i + n
    return None

def emit_sig(fn, ret, vis, rename=None):
    quals = fn.text(fn.quals)
    quals = re.sub(r"pub\s*\([^)]*\)", "pub", quals)
    if vis == "none":
        quals = quals.replace("pub", "").strip()
    elif vis == "pub" and "pub" not in quals:
        quals = "pub " + quals
    quals = re.sub(r"\bconst\b", "", quals).strip()
    s = (quals + " " if quals else "") + "fn " + (rename or fn.name)
    if fn.gen:
        s += fn.text(fn.gen)
    s += fn.text((fn.par[0], fn.par[1] + 1))
    if fn.ret:
        rt = fn.text(fn.ret)
        s += f" -> ({ret}: {rt})" if ret else f" -> {rt}"
    if fn.where:
        s += "\n  " + fn.text(fn.where)
    return s

def tail_start(T, mt):
    i = 1
    end = len(T) - 1
    while True:
        start = i
        block = T[i].t in ("if", "match", "for", "while", "loop", "unsafe", "{") or (T[i].t.startswith("'") and i + 1 < end and T[i + 1].t == ":")
        while i < end:
            if T[i].t == ";":
                i += 1
                break
            if T[i].t in OPEN:
                brace = T[i].t == "{"
                i = mt[i] + 1
                if block and brace and i < end and T[i].t not in ("else", ".", "?"):
                    break
                continue
            i += 1
        if i >= end:
            return start if T[end - 1].t != ";" else end

def splice_body(ctx, key, bodytext, sections, ren):
    """bodytext: '{...}'.  sections: list of (name, arg, text)"""
    T = tokenize(bodytext)
    mt = match_brackets(T)
    ins = []   # (pos, order, text, replace_to)
    lps = loops(T, mt, 1, len(T) - 1)
    cls = closures(T, mt, 1, len(T) - 1)
    def miss(what):
        ctx.lost.append((key, what))
    for order, (name, arg, text) in enumerate(sections):
        text = rename_text(text, ren)
        if name == "top":
            ins.append((T[0].e, order, "\n" + text, None))
        elif name == "tail":
            # the tail expression is given a name, so that facts about it can be stated
            b = tail_start(T, mt)
            if b >= len(T) - 1:
                miss("tail expression")
                continue
            ins.append((T[b].s, -1, f"let {arg.strip()} = ", None))
            ins.append((T[-1].s, 1e6 + order, f";\n{text}\n{arg.strip()}\n", None))
        elif name == "bottom":
            ins.append((T[-1].s, order, "\n" + text + "\n", None))
        elif name in ("loop", "loop_before", "loop_top", "loop_bottom"):
            a = arg.split()
            k = int(a[0])
            if k >= len(lps):
                miss(f"loop {k}")
                continue
            kw, b = lps[k]
            if name == "loop":
                if len(a) > 2 and a[1] == "iter" and T[kw].t == "for":
                    q = kw
                    while T[q].t != "in":
                        q += 1
                    ins.append((T[q].e, order, f" {a[2]}:", None))
                ins.append((T[b].s, order, "\n" + text + "\n", None))
            elif name == "loop_before":
                q = kw - 2 if T[kw - 1].t == ":" and T[kw - 2].t.startswith("'") else kw
                ins.append((T[q].s, order, "\n" + text + "\n", None))
            elif name == "loop_top":
                ins.append((T[b].e, order, "\n" + text + "\n", None))
            else:
                semi = "" if T[mt[b] - 1].t in (";", "}", "{") else ";"
                ins.append((T[mt[b]].s, order, semi + "\n" + text + "\n", None))
        elif name == "closure":
            k = int(arg.split()[0])
            if k >= len(cls):
                miss(f"closure {k}")
                continue
            o, c, b, e = cls[k]
            ins.append((T[c].e, order, " " + text.strip() + " ", None))
            if T[b].t != "{":
                ins.append((T[b].s, order + 0.1, "{ ", None))
                ins.append((T[e - 1].e, order, " }", None))
        elif name in ("before", "after", "after_stmt"):
            m = find_seq(T, arg)
            if not m:
                miss(f"anchor `{arg}`")
                continue
            if name == "before":
                ins.append((T[m[0]].s, order, "\n" + text + "\n", None))
            elif name == "after":
                ins.append((T[m[1] - 1].e, order, "\n" + text + "\n", None))
            else:
                q = m[0]
                while T[q].t != ";":
                    q = mt[q] + 1 if T[q].t in OPEN else q + 1
                ins.append((T[q].e, order, "\n" + text + "\n", None))
        else:
            raise SystemExit(f"unknown section {name} in {key}")
    ins.sort(key=lambda x: (x[0], x[1]))
    out, pos = [], 0
    for p, _, text, _ in ins:
        out.append(bodytext[pos:p]); out.append(text); pos = p
    out.append(bodytext[pos:])
    return "".join(out)

def strip_comments_attrs(text):
    """drop comments and #[...] attributes, keep layout"""
    toks = tokenize(text)
    mt = match_brackets(toks)
    out, pos, i = [], 0, 0
    prev_end = 0
    res = []
    while i < len(toks):
        t = toks[i]
        gap = text[prev_end:t.s]
        res.append("\n" if "\n" in gap else (" " if gap else ""))
        if t.t == "#" and i + 1 < len(toks) and toks[i + 1].t == "[":
            j = mt[i + 1]
            prev_end = toks[j].e
            i = j + 1
            continue
        res.append(t.t)
        prev_end = t.e
        i += 1
    return "".join(res)

def apply_rewrites(ctx, key, text, rewrites):
    for arg, opt in rewrites:
        a, b = [x.strip() for x in arg.split("=>>", 1)]
        hit = False
        lo = 0
        while True:
            T = tokenize(text)
            m = find_seq(T, a, lo)
            if not m:
                break
            hit = True
            text = text[:T[m[0]].s] + b + text[T[m[1] - 1].e:]
            lo = m[0] + len(tokenize(b))
        if hit:
            ctx.dropped.append(f"{key}: `{a}` read as `{b}`")
        elif not opt:
            ctx.lost.append((key, f"rewrite `{a}`"))
    return text

ITER_EXT = {"filter_map", "flat_map", "chain", "min_by", "max_by", "sum", "any", "all"}

def desugar(ctx, key, text, split=None):
    """array patterns in `let` read as indexing; debug_assert*! macros dropped; `a.b.index_mut(i)` read as `&mut a.b[i]`"""
    while True:
        T = tokenize(text)
        k = next((i for i in range(2, len(T) - 1) if T[i].t == "index_mut" and T[i - 1].t == "." and T[i + 1].t == "(" and T[i - 2].k == "id"), None)
        if k is None:
            break
        lo = k - 2
        while lo >= 2 and T[lo - 1].t == "." and T[lo - 2].k == "id":
            lo -= 2
        e = match_brackets(T)[k + 1]
        recv, arg = text[T[lo].s:T[k - 2].e], text[T[k + 1].e:T[e].s]
        ctx.dropped.append(f"{key}: `{recv}.index_mut(..)` read as `&mut {recv}[..]`")
        text = text[:T[lo].s] + f"&mut {recv}[{arg}]" + text[T[e].e:]
    n = 0
    while True:
        T = tokenize(text)
        mt = match_brackets(T)
        for i in range(len(T) - 3):
            if T[i].t == "let" and T[i + 1].t == "[":
                j = mt[i + 1]
                ids = [x.t for x in T[i + 2:j] if x.t != ","]
                if T[j + 1].t != "=" or not all(re.fullmatch(r"[a-z_]\w*", x) for x in ids):
                    continue
                k = j + 2
                while T[k].t != ";":
                    k = mt[k] + 1 if T[k].t in "([{" else k + 1
                e = text[T[j + 2].s:T[k].s].strip()
                n += 1
                parts = f"{split}(arr_{n})" if split else "(" + ", ".join(f"arr_{n}[{q}]" for q in range(len(ids))) + ")"
                text = text[:T[i].s] + f"let arr_{n} = {e}; let ({', '.join(ids)}) = " + parts + text[T[k].s:]
                ctx.dropped.append(f"{key}: `let [{', '.join(ids)}] = ..` read as indexing")
                break
            if T[i].t == "for" and T[i + 1].t == "&" and T[i + 3].t == "in":
                j = i + 4
                while T[j].t != "{":
                    j = mt[j] + 1 if T[j].t in "([" else j + 1
                n += 1
                ctx.dropped.append(f"{key}: `for &{T[i + 2].t} in` read as a loop over references, dereferenced in the body")
                text = text[:T[i + 1].s] + f"vx_p{n}" + text[T[i + 2].e:T[j].e] + f" let {T[i + 2].t} = *vx_p{n}; " + text[T[j].e:]
                break
            if T[i].t == "|" and i and (T[i - 1].t in ("(", ",", "=", "move", "{", ";", "return")):
                # closure parameters that are tuple patterns: named, taken apart by a `let` in the body
                j = i + 1; parts = []; st = j
                while T[j].t != "|":
                    if T[j].t in "([{":
                        j = mt[j] + 1; continue
                    if T[j].t == ",":
                        parts.append((st, j - 1)); st = j + 1
                    j += 1
                if st < j:
                    parts.append((st, j - 1))
                isref = lambda a, b: T[a].t == "&" and (b == a + 1 or (b > a + 1 and T[a + 2].t == ":"))
                if any(T[a].t == "(" and mt[a] == b or isref(a, b) for a, b in parts):
                    lets = ""; ps = []
                    for a, b in parts:
                        src_p = text[T[a].s:T[b].e]
                        if T[a].t == "(" and mt[a] == b:
                            n += 1; ps.append(f"vx_p{n}"); lets += f"let {src_p} = vx_p{n}; "
                        elif isref(a, b):
                            n += 1; ps.append(f"vx_p{n}" + text[T[a + 1].e:T[b].e]); lets += f"let {T[a + 1].t} = *vx_p{n}; "
                        else:
                            ps.append(src_p)
                    k = j + 1
                    if T[k].t == "{":
                        body = text[T[k].e:T[mt[k]].s]; end = T[mt[k]].e
                    else:
                        q = k
                        while T[q].t not in (")", ",", ";", "}", "]"):
                            q = mt[q] + 1 if T[q].t in "([{" else q + 1
                        body = text[T[k].s:T[q - 1].e]; end = T[q - 1].e
                    ctx.dropped.append(f"{key}: closure pattern {text[T[i].s:T[j].e]} read as a named parameter taken apart in the body")
                    text = text[:T[i].s] + "|" + ", ".join(ps) + "| { " + lets + body + "}" + text[end:]
                    break
            if T[i].t == "." and T[i + 1].t in ITER_EXT and T[i + 2].t in ("(", "::"):
                ctx.dropped.append(f"{key}: Iterator::{T[i + 1].t} read through its assumed contract v{T[i + 1].t}")
                text = text[:T[i + 1].s] + "v" + text[T[i + 1].s:]
                break
            if T[i].t in ("panic", "unreachable", "todo", "unimplemented") and T[i + 1].t == "!" and T[i + 2].t in "([{" and mt[i + 2] > i + 3:
                ctx.dropped.append(f"{key}: message of {T[i].t}! dropped")
                text = text[:T[i + 2].e] + text[T[mt[i + 2]].s:]
                break
            if T[i].t in ("assert", "assert_eq", "assert_ne") and T[i + 1].t == "!" and T[i + 2].t == "(":
                j = mt[i + 2]; parts = []; st = i + 3; k = i + 3
                while k < j:
                    if T[k].t in "([{":
                        k = mt[k] + 1; continue
                    if T[k].t == ",":
                        parts.append(text[T[st].s:T[k - 1].e]); st = k + 1
                    k += 1
                if st < j:
                    parts.append(text[T[st].s:T[j - 1].e])
                cond = parts[0] if T[i].t == "assert" else f"{parts[0]} {'==' if T[i].t == 'assert_eq' else '!='} {parts[1]}"
                if not (T[i].t == "assert" and len(parts) == 1):
                    ctx.dropped.append(f"{key}: {T[i].t}! read as assert! of its condition")
                    text = text[:T[i].s] + f"assert!({cond})" + text[T[j].e:]
                    break
            if re.fullmatch(r"debug_assert\w*", T[i].t) and T[i + 1].t == "!" and T[i + 2].t == "(":
                j = mt[i + 2]
                if T[j + 1].t == ";":
                    j += 1
                ctx.dropped.append(f"{key}: {T[i].t}! dropped")
                text = text[:T[i].s] + text[T[j].e:]
                break
        else:
            return text

def from_fn_part(ctx, key, body, part, gsig, iret):
    """A function that sets up some variables and ends in `std::iter::from_fn(move || BODY)`:
    part=init is the set-up, ending in a tuple of the captured variables;
    part=step is BODY, with the captured variables as `&mut` parameters."""
    B = tokenize(body)
    at = find_seq(B, "std::iter::from_fn(move ||") or find_seq(B, "iter::from_fn(move ||") or find_seq(B, "from_fn(move ||")
    if not at:
        raise LostAnchor(f"{key}: no iter::from_fn(move || ..)")
    lo, hi = at
    par = next(i for i in range(lo, hi) if B[i].t == "(")
    end = match_brackets(B)[par]
    if part == "init":
        ctx.dropped.append(f"{key}: the set-up of the iterator, as a function returning the variables its closure captures")
        return body[:B[lo].s] + iret + body[B[end].e:]
    ctx.dropped.append(f"{key}: the closure of iter::from_fn, as a function of the variables it captures")
    inner = body[B[hi].s:B[end].s].rstrip().rstrip(",")
    caps = set(re.findall(r"(\w+)\s*:\s*&mut\b", gsig))
    T = tokenize(inner)
    out, last, i = [], 0, 0
    while i < len(T):
        t = T[i]
        if t.t in caps and not (i and T[i - 1].t in (".", "::")) and not (i + 1 < len(T) and T[i + 1].t == ":" ):
            if i >= 2 and T[i - 1].t == "mut" and T[i - 2].t == "&":
                out.append(inner[last:t.s] + "*" + t.t)
            elif i + 1 < len(T) and T[i + 1].t == ".":
                out.append(inner[last:t.e])
            else:
                out.append(inner[last:t.s] + f"(*{t.t})")
            last = t.e
        i += 1
    out.append(inner[last:])
    return "{ " + "".join(out) + " }"

def emit_fn(ctx, blk, subst):
    args = [subst_macro(a.strip(), subst) for a in blk.args.split("|")]
    f, impl, name = args[0], args[1], args[2]
    opts = dict(a.split("=", 1) for a in args[3:] if "=" in a)
    impl = None if impl in ("-", "") else impl
    key = f"{f.replace('src/', '')}::{(impl + '::') if impl else ''}{name}"
    try:
        if "#" in f:
            ff, mac = f.split("#")
            src = macro_source(ctx, ff, mac, subst)
            f = ff
        else:
            src = load(ctx, f)
        fn = src.find_fn(impl, name)
        if not fn.body:
            raise LostAnchor(f"{key}: no body")
        names = local_names(fn)
    except (LostAnchor, KeyError, IndexError) as e:
        ctx.lost.append((key, f"not extractable: {e}"))
        return f"// LOST {key}: {e}\n", key
    if ctx.record is not None:
        ctx.record.setdefault("names", {})[key] = names
        ctx.record.setdefault("text", {})[key] = norm(fn.toks[fn.i:fn.body[1] + 1])
    basen = ctx.base.get("names", {}).get(key)
    ren = {}
    if basen and basen != names and len(basen) == len(names):
        ok = True
        for a, b in zip(basen, names):
            if a != b:
                if ren.get(a, b) != b:
                    ok = False
                ren[a] = b
        ren = ren if ok else {}
    same = ctx.base.get("text", {}).get(key) == norm(fn.toks[fn.i:fn.body[1] + 1])
    ret, spec, secs, rew, vis, attr = None, "", [], [], opts.get("vis"), ""
    gsig = iret = None
    part = opts.get("part")
    if part:
        key = f"{key}[{part}]"
    for n, a, t in blk.sections:
        a = subst_macro(a, subst); t = subst_macro(t, subst)
        if n == "ret":
            ret = a.strip()
        elif n == "spec":
            spec = rename_text(t, ren)
        elif n == "attr":
            attr = (a + "\n" + t).strip() + "\n"
        elif n == "rewrite":
            rew.append((a, False))
        elif n == "rewrite?":
            rew.append((a, True))
        elif n == "gsig":
            gsig = rename_text(subst_macro((a + " " + t).strip(), subst), ren)
        elif n == "init_ret":
            iret = rename_text(a.strip(), ren)
        else:
            secs.append((n, a, t))
    if ctx.contract_only:
        sig = strip_comments_attrs(emit_sig(fn, ret, vis, opts.get("rename")))
        sig = apply_rewrites(Ctx(), key, sig, [(a, True) for a, _ in rew])
        sig = re.sub(r"(?<=[(,])(\s*)mut\s+(?=\w+\s*[:,)])", r"\1", sig)
        ctx.assumed.append(key)
        at = "" if "external_body" in attr else "#[verifier::external_body]\n"
        sp = re.sub(r"(?ms)^\s*decreases\b.*\Z", "", spec) if re.search(r"\bdecreases\b", spec) else spec
        body = "Vec::new().into_iter()" if "impl Iterator" in sig else "unimplemented!()"
        return attr + at + sig + "\n" + sp.rstrip() + "\n{ " + body + " }\n", key
    body = strip_comments_attrs(fn.text((fn.body[0], fn.body[1] + 1)))
    try:
        body = inline_helpers(ctx, src, f, body)
        sig = strip_comments_attrs(emit_sig(fn, ret, vis, opts.get("rename")))
        if part:
            body = from_fn_part(ctx, key, body, part, gsig, iret)
            sig = gsig
        sigrew = [(a, True) for a, _ in rew if not a.startswith("let [..]")]
        sig = apply_rewrites(Ctx(), key, sig, sigrew)
        n_lost = len(ctx.lost)
        # `let [a, b] = e;` moves out of the array: read through the named (trusted) function
        split = next((a.split("=>>")[1].strip() for a, _ in rew if a.startswith("let [..]")), None)
        rew = [r for r in rew if not r[0].startswith("let [..]")]
        rb = desugar(ctx, key, apply_rewrites(ctx, key, body, rew), split)
        # a rewrite that only concerned the signature is not lost
        ctx.lost[n_lost:] = [l for l in ctx.lost[n_lost:] if not any(find_seq(tokenize(emit_sig(fn, ret, vis)), a.split("=>>")[0].strip()) for a, _ in rew if f"`{a.split('=>>')[0].strip()}`" in l[1])]
        body = rb
        ST = tokenize(sig)
        ms = next((i for i in range(len(ST) - 1) if ST[i].t == "mut" and ST[i + 1].t == "self" and ST[i - 1].t in ("(", ",")), None)
        if ms is not None:
            # `mut self` read as an immutable parameter and a local copy
            sig = sig[:ST[ms].s] + sig[ST[ms + 1].s:]
            BT = tokenize(body)
            for t in reversed(BT):
                if t.t == "self":
                    body = body[:t.s] + "self_" + body[t.e:]
            body = "{ let mut self_ = self;" + body[body.index("{") + 1:]
            ctx.dropped.append(f"{key}: `mut self` read as a local copy")
        body = splice_body(ctx, key, body, secs, ren)
        # nested functions
        for nn, nsec in blk.nested.items():
            S = Source(body)
            c = [g for g in S.fns() if g.name == nn]
            if not c:
                ctx.lost.append((key, f"nested fn {nn}"))
                continue
            g = c[0]
            nret, nspec, nsecs = None, "", []
            for n, a, t in nsec:
                a = subst_macro(a, subst); t = subst_macro(t, subst)
                if n == "ret": nret = a.strip()
                elif n == "spec": nspec = t
                else: nsecs.append((n, a, t))
            gb = splice_body(ctx, key, g.text((g.body[0], g.body[1] + 1)), nsecs, {})
            body = body[:g.toks[g.quals[0]].s] + emit_sig(g, nret, None) + "\n" + nspec + "\n" + gb + body[g.toks[g.body[1]].e:]
    except (LostAnchor, KeyError, IndexError) as e:
        ctx.lost.append((key, f"not extractable: {e}"))
        return f"// LOST {key}: {e}\n", key
    text = attr + sig + "\n" + spec.rstrip() + "\n" + body + "\n"
    ctx.functions.append({"key": key, "file": f, "line": fn.src.count("\n", 0, fn.toks[fn.i].s) + 1, "changed": not same, "ret": ret, "opts": opts})
    probe = ""
    if opts.get("probe", "no" if impl and (" for " in impl or impl.startswith("trait ")) else "yes") != "no":
        pspec = spec.rstrip()
        nm = (opts.get("rename") or name) + "__probe"
        psig = re.sub(r"\bfn\s+" + re.escape(opts.get("rename") or name) + r"\b", "fn " + nm, sig, count=1)
        if re.search(r"\bensures\b", pspec):
            pspec = re.sub(r"\bensures\b(?![^{]*\bensures\b)", "ensures false,", pspec, count=1) if False else _add_false(pspec)
        else:
            pspec = _add_false(pspec)
        probe = attr + psig + "\n" + pspec + "\n" + body + "\n"
    return text, key, probe

def _add_false(spec):
    """add `false` to the ensures list of a contract"""
    toks = tokenize(spec)
    d = 0
    for t in toks:
        if t.k == "p" and t.t in "([{": d += 1
        if t.k == "p" and t.t in ")]}": d -= 1
        if t.t == "ensures" and d == 0:
            return spec[:t.e] + " false, " + spec[t.e:]
    for t in toks:
        if t.t == "decreases":
            return spec[:t.s] + " ensures false, " + spec[t.s:]
    s = spec.rstrip()
    if s and not s.endswith(","):
        s += ","
    return s + " ensures false,"

def parse(path):
    """fragment -> list of str | Block | ('foreach', ...)"""
    out, blk, sec, nested = [], None, None, None
    with open(path) as h:
        lines = h.read().split("\n")
    for ln, line in enumerate(lines, 1):
        s = line.strip()
        if s.startswith("//@ "):
            d, _, arg = s[4:].partition(" ")
            if d in ("fn", "item", "foreach_macro"):
                if d == "fn":
                    blk = Block("fn", arg, ln); sec = None; nested = None
                    out.append(blk)
                elif d == "item":
                    out.append(Block("item", arg, ln))
                else:
                    out.append(("foreach", arg))
            elif d == "endforeach":
                out.append(("endforeach", ""))
            elif d == "end":
                blk = None; sec = None; nested = None
            elif d == "nested":
                nested = arg.strip(); blk.nested[nested] = []; sec = None
            elif d == "endnested":
                nested = None; sec = None
            else:
                tgt = blk.nested[nested] if nested else blk.sections
                sec = [d, arg, ""]
                tgt.append(sec)
            continue
        if blk is not None:
            if sec is not None:
                sec[2] += line + "\n"
            elif s:
                raise SystemExit(f"{path}:{ln}: text outside a section: {line}")
        else:
            out.append(line + "\n")
    return out

def emit_item(ctx, blk, subst):
    a = [subst_macro(x.strip(), subst) for x in blk.args.split("|")]
    f, name = a[0], a[1]
    opts = dict(x.split("=", 1) for x in a[2:] if "=" in x)
    try:
        text, _ = load(ctx, f).find_struct(name)
    except LostAnchor as e:
        ctx.lost.append((f"{f}::{name}", str(e)))
        return f"// LOST {name}\n"
    text = strip_comments_attrs(text)
    text = re.sub(r"pub\s*\([^)]*\)", "pub", text)
    if opts.get("fields") == "priv":
        o = next((i for i, c in enumerate(text) if c in "{("), None)
        if o is not None:
            text = text[:o] + re.sub(r"\bpub\s+", "", text[o:])
    if opts.get("fields") == "pub":
        T = tokenize(text); mt = match_brackets(T)
        o = next((i for i, t in enumerate(T) if t.t in ("{", "(")), None)
        if o is not None and " enum " not in " " + text.split("{")[0] + " ":
            edits = []
            parts = split_top(T[o + 1:mt[o]], ",")
            for p in parts:
                if p and p[0].t != "pub":
                    edits.append(p[0].s)
            for e in reversed(edits):
                text = text[:e] + "pub " + text[e:]
    if not text.startswith("pub"):
        text = "pub " + text
    for k in ("rewrite",):
        if k in opts:
            x, y = opts[k].split("=>>")
            text = apply_rewrites(ctx, name, text, [(opts[k], False)])
    ctx.items.append(f"{f}::{name}")
    return (opts.get("attr", "") + "\n" if "attr" in opts else "") + text + "\n"

def assemble(ctx, fragments, probe=False):
    """returns text, linemap [(lo, hi, key)]"""
    out, linemap = [], []
    line = 1
    def put(t):
        nonlocal line
        out.append(t)
        line += t.count("\n")
    def run(items, subst):
        i = 0
        while i < len(items):
            it = items[i]
            if isinstance(it, tuple) and it[0] == "foreach":
                j = i + 1
                while not (isinstance(items[j], tuple) and items[j][0] == "endforeach"):
                    j += 1
                a = it[1].split()
                f, mac = a[0], a[1]
                only = a[2:]
                try:
                    S = load(ctx, f)
                    pn = S.macro_params(mac)
                    for call in S.macro_calls(mac):
                        if "(" in "".join(only): pass
                        if only and call[0] not in only:
                            continue
                        sub = dict(zip(pn, call))
                        sub["mod"] = re.sub(r"[^A-Za-z0-9]+", "_", call[0]).strip("_")
                        run(items[i + 1:j], sub)
                except LostAnchor as e:
                    ctx.lost.append((f"{f}::{mac}", str(e)))
                i = j + 1
                continue
            if isinstance(it, Block):
                if it.kind == "fn":
                    r = emit_fn(ctx, it, subst)
                    lo = line
                    put(r[0])
                    linemap.append((lo, line, r[1]))
                    if probe and len(r) > 2 and r[2]:
                        lo = line
                        put(r[2])
                        linemap.append((lo, line, r[1] + "__probe"))
                else:
                    put(emit_item(ctx, it, subst))
            else:
                put(subst_macro(it, subst) if subst else it)
            i += 1
    if any("std::alloc::Allocator" in open(os.path.join(SPECS, fr.lstrip("~") + ".vrs")).read() for fr in fragments):
        put("#![feature(allocator_api)]\n")
    for fr in fragments:
        ctx.contract_only = fr.startswith("~")
        fr = fr.lstrip("~")
        p = os.path.join(SPECS, fr + ".vrs")
        put(f"// ===== {fr}\n")
        lo = line
        run(parse(p), {})
        linemap.append((lo, line, f"spec:{fr}"))
    return "".join(out), linemap

def all_fragments():
    return sorted(f[:-4] for f in os.listdir(SPECS) if f.endswith(".vrs"))

def load_base(ctx):
    p = os.path.join(SPECS, "baseline.json")
    if os.path.exists(p):
        ctx.base = json.load(open(p))

if __name__ == "__main__":
    cmd = sys.argv[1]
    ctx = Ctx()
    if cmd == "record":
        ctx.record = {"fns": {}}
        assemble(ctx, all_fragments())
        for f in {k.split("#")[0] for k in ctx.sources}:
            ctx.record["fns"][f] = sorted({g.name for g in load(ctx, f).fns()})
        json.dump(ctx.record, open(os.path.join(SPECS, "baseline.json"), "w"), indent=0, sort_keys=True)
        print("recorded", len(ctx.record.get("names", {})), "lost", ctx.lost)
    else:
        load_base(ctx)
        probe = "--probe" in sys.argv
        frs = [a for a in sys.argv[2:] if not a.startswith("--")]
        t, lm = assemble(ctx, frs, probe)
        print(t)
        for l in ctx.lost:
            print("LOST", l, file=sys.stderr)
