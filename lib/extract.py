"""Cuts functions and types out of /repo's source text and splices contracts into them.

Nothing is rewritten by hand: the text between the braces of a function is copied as it stands,
apart from the substitutions a template lists (`sub` lines, reported in the evidence). Functions declared
inside a body are moved out of it (`hoist`) and verified on their own. Comments and
attributes are dropped, `pub(crate)` becomes `pub`, and identifiers `int`/`nat` become `int_`/`nat_`,
the fields of a struct become public, a `for` loop over a range with `continue` becomes a `while` loop where the template says so, one over an iterator of the program a `while let` over its `next`, a `&x` pattern of a `for`, `let` or `if let` becomes a dereference in the body, and a `mut self` parameter becomes a local variable.
`map` on an Option becomes a `match` and accesses through raw pointers go through `deref`/`deref_mut` where the template says so."""
import os, re


class Lost(Exception):
    """The place a contract is attached to is no longer there."""


def mask(s):
    """The text with comments, string and char literals blanked out (same length)."""
    out = list(s)
    i, n = 0, len(s)

    def blank(a, b):
        for k in range(a, b):
            if out[k] != "\n":
                out[k] = " "
    while i < n:
        c = s[i]
        if s.startswith("//", i):
            j = s.find("\n", i)
            j = n if j < 0 else j
            blank(i, j)
            i = j
        elif s.startswith("/*", i):
            d, j = 1, i + 2
            while j < n and d:
                if s.startswith("/*", j):
                    d += 1
                    j += 2
                elif s.startswith("*/", j):
                    d -= 1
                    j += 2
                else:
                    j += 1
            blank(i, j)
            i = j
        elif c == '"' or (c in "rb" and re.match(r'b?r?#*"', s[i:i + 8]) and (i == 0 or not (s[i - 1].isalnum() or s[i - 1] == "_"))):
            m = re.match(r'(b?)(r?)(#*)"', s[i:])
            if m.group(2):
                end = '"' + m.group(3)
                j = s.find(end, i + m.end())
                j = n if j < 0 else j + len(end)
            else:
                j = i + m.end()
                while j < n and s[j] != '"':
                    j += 2 if s[j] == "\\" else 1
                j += 1
            blank(i, j)
            i = j
        elif c == "'" or (c == "b" and s.startswith("b'", i) and (i == 0 or not (s[i - 1].isalnum() or s[i - 1] == "_"))):
            k = i + (1 if c == "b" else 0)
            m = re.match(r"'(\\x[0-9a-fA-F]{2}|\\u\{[0-9a-fA-F_]+\}|\\.|[^\\'])'", s[k:k + 16])
            if m:
                blank(i, k + m.end())
                i = k + m.end()
            else:
                i += 1
        else:
            i += 1
    return "".join(out)


def close(m, i):
    """Index after the bracket matching the one at i."""
    pair = {"{": "}", "(": ")", "[": "]"}
    d, st = 0, []
    while i < len(m):
        if m[i] in pair:
            st.append(pair[m[i]])
        elif m[i] in ")]}":
            if not st or st.pop() != m[i]:
                raise Lost("unbalanced brackets")
            if not st:
                return i + 1
        i += 1
    raise Lost("unbalanced brackets")


def open_brace(m, i):
    """The first `{` after i that is not inside parentheses or brackets."""
    while i < len(m):
        if m[i] in "([":
            i = close(m, i)
            continue
        if m[i] == "{":
            return i
        if m[i] == ";":
            raise Lost("no body")
        i += 1
    raise Lost("no body")


class Source:
    def __init__(self, root, path):
        self.path = path
        try:
            self.s = open(os.path.join(root, path), encoding="utf-8").read()
        except OSError:
            raise Lost("%s is gone" % path)
        self.m = mask(self.s)

    def depth0(self, a, b):
        """Positions between a and b that are not inside braces."""
        i = a
        while i < b:
            if self.m[i] == "{":
                i = close(self.m, i)
                continue
            yield i
            i += 1

    def impls(self, ty):
        for mm in re.finditer(r"\b(impl|trait)\b", self.m):
            a = mm.start()
            # at module level: only inside `mod x {}` bodies or the file itself
            try:
                o = open_brace(self.m, mm.end())
            except Lost:
                continue
            head = re.sub(r"\s+", " ", self.m[mm.end():o]).strip()
            head = re.sub(r"\bwhere\b.*", "", head)
            if mm.group(1) == "impl":
                head = self.strip_generics(head)
                trait = None
                if " for " in " " + head:
                    trait, head = [x.strip() for x in re.split(r"\bfor\b", head, 1)]
            else:
                trait = None
                head = head.split(":")[0]
            name = re.match(r"&?\s*(?:mut\s+)?(?:\w+::)*(\w+)", head.strip())
            if name and name.group(1) == ty:
                yield trait, o + 1, close(self.m, o) - 1

    @staticmethod
    def strip_generics(h):
        if h.startswith("<"):
            d = 0
            for k, c in enumerate(h):
                d += c == "<"
                d -= c == ">" and h[k - 1] != "-"
                if d == 0:
                    return h[k + 1:].strip()
        return h

    def fn(self, path):
        """(start of signature, `{` of the body, end) of `name`, `Type::name` or `Trait for Type::name`;
        `outer/inner` is a function inside the body of another."""
        if "/" in path:
            outer, name = path.rsplit("/", 1)
            _, o, e = self.fn(outer)
            return self.find(name, [(o + 1, e - 1)], path, True)
        if "::" in path:
            ty, name = path.rsplit("::", 1)
            want = None
            if " for " in ty:
                want, ty = [x.strip() for x in ty.split(" for ")]
            areas = [(a, b) for t, a, b in self.impls(ty) if want is None and t is None or want and t and re.match(r"(?:\w+::)*(\w+)", t).group(1) == want]
            if not areas and want is None:
                areas = [(a, b) for t, a, b in self.impls(ty)]
        else:
            name, areas = path, [(0, len(self.m))]
        return self.find(name, areas, path)

    def find(self, name, areas, path, deep=False):
        found = []
        for a, b in areas:
            ok = range(a, b) if deep else set(self.depth0(a, b))
            for mm in re.finditer(r"\bfn\s+(%s)\b" % re.escape(name), self.m):
                if mm.start() in ok:
                    found.append(mm)
        if len(found) != 1:
            raise Lost("%s: %d functions named %s" % (self.path, len(found), path))
        mm = found[0]
        a = mm.start()
        while True:
            q = re.search(r"(?:\b(?:pub(?:\s*\([^)]*\))?|const|unsafe|async|extern)\s+)$", self.m[:a])
            if not q:
                break
            a = q.start()
        o = open_brace(self.m, mm.end())
        return a, o, close(self.m, o)

    def item(self, kind, name):
        for mm in re.finditer(r"\b%s\s+%s\b" % (kind, re.escape(name)), self.m):
            a = mm.start()
            q = re.search(r"pub(?:\s*\([^)]*\))?\s+$", self.m[:a])
            if q:
                a = q.start()
            i = mm.end()
            while i < len(self.m) and self.m[i] not in "{;(":
                i += 1
            if kind in ("const", "static", "type"):
                e = self.m.index(";", mm.end()) + 1
            elif self.m[i] == ";":
                e = i + 1
            else:
                e = close(self.m, i)
                if self.m[i] == "(":
                    e = self.m.index(";", e) + 1
            return self.s[a:e]
        raise Lost("%s: no %s %s" % (self.path, kind, name))


def plain(t):
    """Without comments, attributes and restricted visibility."""
    m = mask(t)
    out, i = [], 0
    # drop comments (masked text is blank where the source is not), keep literals
    k = 0
    keep = list(t)
    while k < len(t):
        if t.startswith("//", k) and m[k] == " ":
            j = t.find("\n", k)
            j = len(t) if j < 0 else j
            # inside a string literal the mask is blank as well: tell them apart by scanning
            if not in_literal(t, k):
                for x in range(k, j):
                    keep[x] = " "
                k = j
                continue
        if t.startswith("/*", k) and m[k] == " " and not in_literal(t, k):
            j = t.find("*/", k)
            j = len(t) if j < 0 else j + 2
            for x in range(k, j):
                if keep[x] != "\n":
                    keep[x] = " "
            k = j
            continue
        k += 1
    t = "".join(keep)
    m = mask(t)
    # attributes
    while True:
        q = re.search(r"#!?\[", m)
        if not q:
            break
        e = close(m, q.end() - 1)
        t = t[:q.start()] + " " * (e - q.start()) + t[e:]
        m = mask(t)
    t = re.sub(r"\b(int|nat)\b", r"\1_", t)     # names of Verus types
    t = re.sub(r"\bpub\s*\(\s*(?:crate|super|self|in [\w:]+)\s*\)", "pub", t)
    return "\n".join(l.rstrip() for l in t.split("\n"))


def pub_fields(t):
    """Every field of a struct visible, so that contracts can speak about it."""
    m = mask(t)
    o = m.find("{")
    if o < 0:
        return t
    pos, depth, fresh, angle = [], 0, True, 0
    i = o + 1
    while i < len(m) - 1:
        c = m[i]
        if c in "([{":
            i = close(m, i)
            continue
        if c == "<":
            angle += 1
        elif c == ">" and m[i - 1] != "-":
            angle -= 1
        elif c == "," and angle == 0:
            fresh = True
        elif fresh and (c.isalpha() or c == "_"):
            if not re.match(r"pub\b", m[i:]):
                pos.append(i)
            fresh = False
        i += 1
    for p in reversed(pos):
        t = t[:p] + "pub " + t[p:]
    return t


_lit = {}


def in_literal(t, k):
    key = hash(t)
    if key not in _lit:
        _lit.clear()
        spans, i = [], 0
        n = len(t)
        while i < n:
            if t.startswith("//", i):
                j = t.find("\n", i)
                i = n if j < 0 else j
            elif t.startswith("/*", i):
                j = t.find("*/", i)
                i = n if j < 0 else j + 2
            elif t[i] == '"':
                j = i + 1
                while j < n and t[j] != '"':
                    j += 2 if t[j] == "\\" else 1
                spans.append((i, j))
                i = j + 1
            elif t[i] == "'":
                q = re.match(r"'(\\x[0-9a-fA-F]{2}|\\u\{[0-9a-fA-F_]+\}|\\.|[^\\'])'", t[i:i + 16])
                i += q.end() if q else 1
            else:
                i += 1
        _lit[key] = spans
    return any(a < k < b for a, b in _lit[key])


def loops(m):
    """(kind, keyword position, `{`, end) of every loop, in source order."""
    out = []
    for mm in re.finditer(r"\b(for|while|loop)\b", m):
        if mm.group(1) == "for" and re.match(r"\s*<", m[mm.end():]):
            continue
        try:
            o = open_brace(m, mm.end())
        except Lost:
            continue
        if mm.group(1) == "for" and not re.search(r"\bin\b", m[mm.end():o]):
            continue
        out.append((mm.group(1), mm.start(), o, close(m, o)))
    return out


def option_map(text):
    """`e.map(|p| b)` on an Option as the `match` it stands for (closures cannot hand on ghost state)."""
    while True:
        m = mask(text)
        q = re.search(r"\s*\.\s*map\s*\(\s*\|([^|]*)\|", m)
        if not q:
            return text
        z = close(m, m.index("(", q.start()))
        a = q.start()
        while a > 0:
            c = m[a - 1]
            if c in ")]":
                st = [c]
                a -= 1
                while st:
                    a -= 1
                    if m[a] in ")]}":
                        st.append(m[a])
                    elif m[a] in "([{":
                        st.pop()
            elif c.isalnum() or c in "_.:?" or (c.isspace() and re.match(r"\s*\.", m[a:])):
                if c.isalnum() and re.search(r"\b(return|in|if|match|else|let)$", m[:a]):
                    break
                a -= 1
            else:
                break
        text = text[:a] + "(match %s { Some(%s) => Some(%s), None => None })" % (text[a:q.start()], text[q.start(1):q.end(1)].strip(), text[q.end():z - 1].strip()) + text[z:]


def through_pointer(text, shared, exclusive="none"):
    """A reference made from a raw pointer is kept as the pointer; each access to a field through it goes through the heap.
    `let x = unsafe { p.as_mut().unwrap() };`, `let x = unsafe { &*p };`, `let x = unsafe { &mut *p };`"""
    while True:
        q = re.search(r"\blet\s+(\w+)\s*=\s*unsafe\s*\{\s*(?:([\w.]+?)\.as_mut\(\)\.unwrap\(\)|&\s*(?:mut\s*)?\*\s*([\w.]+))\s*\}\s*;", text)
        if not q:
            return text
        x, p = q.group(1), q.group(2) or q.group(3)
        head, tail = text[:q.start()] + "let %s = %s;" % (x, p), text[q.end():]
        tail = re.sub(r"(?<![\w.])%s\.(\w+)(\s*=[^=])" % x, r"deref_mut(%s, %s).\1\2" % (x, exclusive), tail)
        tail = re.sub(r"&mut\s+%s\.(\w+)\b" % x, r"&mut deref_mut(%s, %s).\1" % (x, exclusive), tail)
        tail = re.sub(r"(?<![\w.])%s\.(\w+)\b(?!\s*\()" % x, r"deref(%s, %s).\1" % (x, shared), tail)
        text = head + tail


def inlined(text, path, name, other, callee):
    """A closure that is handed to a function: the function's body takes the place of the call, and the
    closure's body the place of its calls there. Only where the call gives the result of the function,
    so that an early return of the one is an early return of the other."""
    m = mask(text)
    q = re.search(r"\blet\s+(?:mut\s+)?%s\s*=\s*\|\s*(\w+)\s*(?::[^|]*)?\|\s*\{" % re.escape(name), m)
    if not q:
        raise Lost("%s: no closure %s" % (path, name))
    x, b = q.group(1), q.end() - 1
    z = close(m, b)
    block = text[b:z]
    text = text[:q.start()] + text[re.compile(r"\s*;?").match(m, z).end():]
    m = mask(text)
    q = re.search(r"\b%s\s*\(" % re.escape(callee), m)
    if not q:
        raise Lost("%s: no call of %s" % (path, callee))
    z = close(m, q.end() - 1)
    if not re.match(r"[\s}]*(else\b|$)", m[z:]):
        raise Lost("%s: the call of %s is not the result" % (path, callee))
    args, depth, k = [], 0, q.end()
    for i in range(q.end(), z):
        c = m[i]
        if c == "," and depth == 0 or i == z - 1:
            if text[k:i].strip():
                args.append(text[k:i].strip())
            k = i + 1
        depth += (c in "([{") - (c in ")]}")
    a, _, e = other.fn(callee)
    f = plain(other.s[a:e])
    n = mask(f)
    o = open_brace(n, 0)
    p = re.compile(r"\(").search(n, re.compile(r"\bfn\s+\w+\s*(<[^{]*?>)?\s*(?=\()").search(n).end()).start()
    params = re.findall(r"(?:^|,)\s*(mut\s+)?(\w+)\s*:", n[p + 1:close(n, p) - 1])
    if len(params) != len(args) or args[-1] != name:
        raise Lost("%s: the call of %s does not pass %s" % (path, callee, name))
    body = f[o:]
    body = re.sub(r"\b%s\(\s*([^()]*)\)" % params[-1][1], lambda c: "{ let %s = %s; %s }" % (x, c.group(1), "@@"), body)
    lets = ""
    for (mut, v), arg in list(zip(params, args))[:-1]:
        body = re.sub(r"\b%s\b" % v, v + "_in", body)
        lets += " let %s%s_in = %s;" % (mut, v, arg)
    return text[:q.start()] + "{%s %s }" % (lets, body.replace("@@", block)) + text[z:]


def function(src, path, d):
    """The text of a function with the contract pieces of directive `d` inserted."""
    a, o, e = src.fn(path)
    text = plain(src.s[a:e])
    original = text
    for name in d["hoist"]:
        # a function declared inside the body is verified on its own
        m = mask(text)
        q = re.search(r"\bfn\s+%s\b" % re.escape(name), m)
        if not q:
            raise Lost("%s: no inner function %s" % (path, name))
        text = text[:q.start()] + text[close(m, open_brace(m, q.end())):]
    for name, other, callee in d["inline"]:
        text = inlined(text, path, name, other, callee)
    if re.search(r"\(\s*mut\s+self\b", mask(text)):
        text = re.sub(r"\(\s*mut\s+this\b", "(self", re.sub(r"\bself\b", "this", text), 1)
        o = open_brace(mask(text), 0)
        text = text[:o + 1] + " let mut this = self; " + text[o + 1:]
    for pat, rep, needed in d["sub"]:
        text, n = re.subn(pat, rep, text)
        if n == 0 and needed:
            raise Lost("%s: no place matches %s" % (path, pat))
    if d["optmap"]:
        text = option_map(text)
    if d["deref"]:
        text = through_pointer(text, *d["deref"])
    if d["param"]:
        # erased parameters that carry ghost state
        m = mask(text)
        z = close(m, re.compile(r"\(").search(m, re.compile(r"\bfn\s+\w+\s*(<[^(]*>)?\s*").search(m).end()).start()) - 1
        text = text[:z] + ("" if m[:z].rstrip()[-1] in "(," else ", ") + d["param"] + text[z:]
    for name, args in d["pass"]:
        # and the arguments handed on to them
        m = mask(text)
        o = open_brace(m, 0)
        for q in reversed([q for q in re.finditer(re.escape(name) + r"\s*\(", m[o:]) if not (name[0].isalnum() and re.match(r"[\w:.]", m[o + q.start() - 1]))]):
            z = close(m, o + q.end() - 1) - 1
            text = text[:z] + ("" if m[:z].rstrip()[-1] in "(," else ", ") + args + text[z:]
    while True:
        # `for &x in e {` becomes `for x_ref in e { let x = *x_ref;`, same for `if let` (the verifier has no reference patterns)
        m = mask(text)
        q = re.search(r"\bfor\s+(?:\([^(){}]*?)?(&\s*(\w+))(?=[\w\s,&]*\)?\s+in\b)", m) or re.search(r"\bif\s+let\s[^={]*?(&\s*(\w+))[^={]*=[^=]", m)
        if not q:
            break
        b = open_brace(m, q.end())
        text = text[:q.start(1)] + "%s_ref" % q.group(2) + text[q.end(1):b + 1] + " let %s = *%s_ref; " % (q.group(2), q.group(2)) + text[b + 1:]
    while True:
        # `let (&x, y) = e;` becomes `let (x_ref, y) = e; let x = *x_ref;`
        m = mask(text)
        q = re.search(r"(?<!if )(?<!while )\blet\s*\([^(){}=;]*?(&\s*(\w+))[^(){}=;]*\)\s*=(?!=)", m)
        if not q:
            break
        z, depth = q.end(), 0
        while m[z] != ";" or depth:
            depth += (m[z] in "([{") - (m[z] in ")]}")
            z += 1
        text = text[:q.start(1)] + "%s_ref" % q.group(2) + text[q.end(1):z + 1] + " let %s = *%s_ref;" % (q.group(2), q.group(2)) + text[z + 1:]
    for k, v in sorted(d["while"].items(), reverse=True):
        # `for i in a..b` becomes a while loop (the verifier has no `continue` in for loops)
        ls = loops(mask(text))
        if k >= len(ls) or ls[k][0] != "for":
            raise Lost("%s: loop %d is not a for loop" % (path, k))
        _, p, b, z = ls[k]
        q = re.match(r"for\s+(\w+)\s+in\s+(.+?)\.\.(?!=)(.+?)\s*$", text[p:b], re.S)
        if not q:
            raise Lost("%s: loop %d does not run over a range" % (path, k))
        text = (text[:p] + "let %s_end = %s; let mut %s = %s; while %s < %s_end " % (v, q.group(3), v, q.group(2), v, v)
                + "{ let %s = %s; %s = %s + 1;" % (q.group(1), v, v, v) + text[b + 1:])
    for k, v in sorted(d["next"].items(), reverse=True):
        # `for p in e` becomes what it stands for (iterators of the program are not known to the verifier)
        ls = loops(mask(text))
        if k >= len(ls) or ls[k][0] != "for":
            raise Lost("%s: loop %d is not a for loop" % (path, k))
        _, p, b, z = ls[k]
        q = re.match(r"for\b\s*(.+?)\s*\bin\b\s*(.+?)\s*$", text[p:b], re.S)
        if not q:
            raise Lost("%s: loop %d is not read" % (path, k))
        v, _, ghost = v.partition(" ")
        text = text[:p] + "let mut %s = %s; while let Some(%s) = %s.next(%s) " % (v, q.group(2), q.group(1), v, ghost) + text[b:]
    m = mask(text)
    o = open_brace(m, 0)
    sig = text[:o].rstrip()
    body = text[o:]
    bm = mask(body)
    ls = loops(bm)
    kinds = [k for k, _, _, _ in ls]
    if d["loops"] is not None and kinds != d["loops"]:
        raise Lost("%s: its loops are %s, the contract expects %s" % (path, kinds, d["loops"]))
    ins = []     # (position, order, text)
    for (what, k), t in d["at"].items():
        if what == "start":
            # `hide` has to come first
            head = re.match(r"(?:\s*hide\(\w+\);)*", t).group(0)
            if head:
                ins.append((1, -9, head))
            ins.append((1, 0, t[len(head):]))
        elif what == "end":
            ins.append((len(body) - 1, 0, t))
        else:
            if k >= len(ls):
                raise Lost("%s: no loop %d" % (path, k))
            kind, p, b, z = ls[k]
            if what == "loop":
                ins.append((b, 0, t))
            elif what == "in":
                ins.append((b + 1, 0, t))
            elif what == "last":
                # a loop body ends in a statement; the last one may have been written without its semicolon
                semi = "" if bm[:z - 1].rstrip()[-1] in ";{}" else ";"
                ins.append((z - 1, 0, semi + t))
            elif what == "pre":
                q = re.search(r"'\w+\s*:\s*$", bm[:p])
                ins.append((q.start() if q else p, 1, t))
            elif what == "post":
                ins.append((z, -1, t))
            elif what == "iter":
                # names the ghost iterator: `for x in it: expr`
                q = re.compile(r"\bin\b").search(bm, p)
                ins.append((q.end(), 0, " " + t.strip() + ":"))
    for pat, t, mode in d["near"]:
        hits = [x for x in re.finditer(pat, body) if bm[x.start():x.end()].strip()]
        if len(hits) != 1:
            raise Lost("%s: %d places match %s" % (path, len(hits), pat))
        ins.append((hits[0].end() if mode == "after" else hits[0].start(), 0, t))
    if d.get("canary"):
        ins.append((1, -5, " proof { assert(crate::canary_(0)); } /*canary %s start*/ " % path))
        for n, (kind, p, b, z) in enumerate(ls):
            ins.append((b + 1, -5, " proof { assert(crate::canary_(%d)); } /*canary %s loop %d*/ " % (n + 1, path, n)))
    for pos, _, t in sorted(ins, key=lambda x: (-x[0], -x[1])):
        one = t if t.startswith(" ") and "\n" not in t else "\n" + t + "\n"
        body = body[:pos] + one + body[pos:]
    # the return value gets a name
    sm = mask(sig)
    if d["ret"]:
        q = None
        depth = 0
        for i in range(len(sm) - 1):
            if sm[i] in "([":
                depth += 1
            elif sm[i] in ")]":
                depth -= 1
            elif sm.startswith("->", i) and depth == 0:
                q = i
        if q is None:
            sig += " -> (%s: ())" % d["ret"]
        else:
            w = re.search(r"\bwhere\b", sm[q:])
            t_end = q + w.start() if w else len(sig)
            sig = sig[:q] + "-> (%s: %s) " % (d["ret"], sig[q + 2:t_end].strip()) + sig[t_end:]
    return sig + "\n" + d["spec"] + body, original


DIR = re.compile(r"^\s*//@\s?(.*)$")


def read_template(path):
    out = []
    for l in open(path, encoding="utf-8").read().split("\n"):
        q = re.match(r"\s*//@ include (\S+)", l)
        out += read_template(os.path.join(os.path.dirname(path), q.group(1))) if q else [l]
    return out


def build(root, template, canary=False):
    """Fills a template. Returns (text, functions, {line: function}, subs, lost)."""
    lines = read_template(template)
    out, funcs, subs, where = [], [], [], []
    cache = {}
    i = 0

    def source(p):
        if p not in cache:
            cache[p] = Source(root, p)
        return cache[p]
    while i < len(lines):
        q = DIR.match(lines[i])
        if not q:
            out.append(lines[i])
            i += 1
            continue
        words = q.group(1).split()
        if words[0] == "item":
            t = plain(source(words[1]).item(words[2], words[3]))
            if words[2] == "struct":
                t = pub_fields(t)
            j = i + 1
            while j < len(lines) and DIR.match(lines[j]) and DIR.match(lines[j]).group(1).startswith("sub "):
                pat, rep = re.match(r"sub\s+(.*?)\s+=>\s?(.*)$", DIR.match(lines[j]).group(1)).groups()
                t2 = re.sub(pat, rep, t)
                if t2 != t:
                    subs.append("%s: %s => %s" % (words[3], pat, rep))
                t = t2
                j += 1
            out += t.split("\n")
            i = j
            continue
        if words[0] != "fn":
            raise ValueError("%s:%d: unknown directive" % (template, i + 1))
        head = q.group(1)[3:]
        ret = None
        if "->" in head:
            head, ret = [x.strip() for x in head.split("->")]
        p, path = head.strip().split(None, 1)
        d = {"while": {}, "next": {}, "param": "", "pass": [], "optmap": False, "deref": None, "sub": [], "hoist": [], "inline": [], "loops": None, "at": {}, "near": [], "spec": "", "ret": ret, "canary": canary}
        i += 1
        cur = None
        while True:
            q = DIR.match(lines[i])
            if not q:
                # contract text in plain lines up to `//@ end`
                if cur is None:
                    d["spec"] += lines[i] + "\n"
                else:
                    kind, key = cur
                    if kind == "at":
                        d["at"][key] = d["at"].get(key, "") + lines[i] + "\n"
                    else:
                        pat, t, mode = d["near"][key]
                        d["near"][key] = (pat, t + lines[i] + "\n", mode)
                i += 1
                continue
            w = q.group(1).strip()
            i += 1
            if w == "end":
                break
            if re.match(r"sub\??\s", w):
                # `sub?`: a place that may have been written another way
                pat, rep = re.match(r"sub\??\s+(.*?)\s+=>\s?(.*)$", w).groups()
                d["sub"].append((pat, rep, w[3] != "?"))
                subs.append("%s: %s => %s" % (path, pat, rep))
            elif w.startswith("param "):
                d["param"] = w[6:].strip()
            elif w == "optmap":
                d["optmap"] = True
            elif w.startswith("deref "):
                d["deref"] = [x.strip() for x in w[6:].split("|")]
            elif w.startswith("pass "):
                d["pass"].append(tuple(w[5:].strip().split(None, 1)))
            elif w.startswith("hoist "):
                d["hoist"] += w.split()[1:]
            elif w.startswith("inline "):
                a, b, c = w.split()[1:]
                d["inline"].append((a, source(b), c))
                funcs.append("%s %s" % (b, c))
            elif w.startswith("loops"):
                d["loops"] = w.split()[1:]
            elif re.match(r"(loop|in|last|pre|post)\s+\d+$", w):
                a, b = w.split()
                cur = ("at", (a, int(b)))
            elif re.match(r"iter\s+\d+\s+\w+$", w):
                a, b, c = w.split()
                d["at"][("iter", int(b))] = c
            elif re.match(r"while\s+\d+\s+\w+$|next\s+\d+\s+\w+", w):
                a, b, c = w.split(None, 2)
                d[a][int(b)] = c
            elif w in ("start", "end-of-body"):
                cur = ("at", ("start" if w == "start" else "end", 0))
            elif re.match(r"(after|before)\s", w):
                mode, pat = w.split(None, 1)
                d["near"].append((pat, "", mode))
                cur = ("near", len(d["near"]) - 1)
            else:
                raise ValueError("%s:%d: unknown directive %s" % (template, i, w))
        text, original = function(source(p), path, d)
        a = len(out) + 1
        out += text.split("\n")
        where.append((a, len(out), "%s %s" % (p, path)))
        funcs.append("%s %s" % (p, path))
    if canary:
        # nothing is known about it, so it can only be proved where the contracts contradict each other
        out += ["vstd::prelude::verus! {", "pub uninterp spec fn canary_(n: int) -> bool;", "}"]
    return "\n".join(out), funcs, where, subs
