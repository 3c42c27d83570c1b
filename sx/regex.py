"""`re` over text that contains symbolic characters.

A small backtracking matcher over the parse tree produced by CPython's own
regular expression parser.  Every character test on a symbolic character is a
solver-decided branch.  Text without symbolic characters goes to the real re.
"""
import re as _re
from re import _parser, _constants as K
from .values import has_tok, is_tok, tok, tok_text, tok_in, text_opaque_conc, alphabet_of
from . import engine as eng


def _single(node, flags):
    """predicate(code point) for a one-character node."""
    op, av = node
    ic = flags & K.SRE_FLAG_IGNORECASE

    def lit(a):
        if ic:
            return lambda c: chr(c).lower() == chr(a).lower()
        return lambda c: c == a
    if op is K.LITERAL:
        return lit(av)
    if op is K.NOT_LITERAL:
        p = lit(av)
        return lambda c: not p(c)
    if op is K.ANY:
        if flags & K.SRE_FLAG_DOTALL:
            return lambda c: True
        return lambda c: c != 10
    if op is K.CATEGORY:
        return _cat(av, flags)
    if op is K.IN:
        neg = False
        ps = []
        for o, a in av:
            if o is K.NEGATE:
                neg = True
            elif o is K.LITERAL:
                ps.append(lit(a))
            elif o is K.RANGE:
                if ic:
                    ps.append(lambda c, a=a: a[0] <= c <= a[1] or a[0] <= ord(chr(c).lower()) <= a[1]
                              or a[0] <= ord(chr(c).upper()[0]) <= a[1])
                else:
                    ps.append(lambda c, a=a: a[0] <= c <= a[1])
            elif o is K.CATEGORY:
                ps.append(_cat(a, flags))
            else:
                return None
        return lambda c: any(p(c) for p in ps) != neg
    return None


def _cat(av, flags):
    n = str(av)
    neg = "NOT" in n
    if "DIGIT" in n:
        f = lambda c: chr(c).isdigit()
    elif "SPACE" in n:
        f = lambda c: chr(c).isspace()
    else:
        f = _isword
    return (lambda c: not f(c)) if neg else f


def _isword(c):
    return chr(c).isalnum() or c == 95


class M:
    def __init__(self, text, a, b, groups, pat):
        self.string, self.a, self.b, self.g, self.re = text, a, b, groups, pat

    def _idx(self, n):
        return self.re._p.groupindex[n] if isinstance(n, str) else n

    def group(self, *ns):
        if not ns:
            ns = (0,)
        r = []
        for n in ns:
            n = self._idx(n)
            if n == 0:
                r.append(self.string[self.a:self.b])
            else:
                s = self.g.get(n)
                r.append(None if s is None else self.string[s[0]:s[1]])
        return r[0] if len(r) == 1 else tuple(r)

    __getitem__ = group

    def groups(self, default=None):
        return tuple(self.group(i) if i in self.g else default for i in range(1, self.re._p.groups + 1))

    def groupdict(self, default=None):
        return {k: self.group(i) if i in self.g else default for k, i in self.re._p.groupindex.items()}

    def start(self, n=0):
        n = self._idx(n)
        return self.a if n == 0 else self.g.get(n, (-1, -1))[0]

    def end(self, n=0):
        n = self._idx(n)
        return self.b if n == 0 else self.g.get(n, (-1, -1))[1]

    def span(self, n=0):
        return self.start(n), self.end(n)

    def expand(self, tpl):
        out, i = [], 0
        while i < len(tpl):
            c = tpl[i]
            if c == "\\" and i + 1 < len(tpl):
                d = tpl[i + 1]
                if d.isdigit():
                    j = i + 1
                    while j < len(tpl) and tpl[j].isdigit() and j < i + 3:
                        j += 1
                    out.append(self.group(int(tpl[i + 1:j])) or "")
                    i = j
                    continue
                if d == "g":
                    j = tpl.index(">", i)
                    n = tpl[i + 3:j]
                    out.append(self.group(int(n) if n.isdigit() else n) or "")
                    i = j + 1
                    continue
                out.append({"n": "\n", "t": "\t", "\\": "\\"}.get(d, "\\" + d))
                i += 2
                continue
            out.append(c)
            i += 1
        return "".join(out)


class Pat:
    def __init__(self, pattern, flags=0):
        self._p = _re.compile(pattern, flags)
        self.pattern, self.flags = self._p.pattern, self._p.flags
        self.tree = _parser.parse(pattern, flags) if isinstance(pattern, str) else None
        self.groupindex, self.ngroups = self._p.groupindex, self._p.groups

    # ---- matcher: generators over end positions
    def _test(self, s, i, pred):
        c = s[i]
        if not is_tok(c):
            return pred(ord(c))
        p = tok(c)
        if p[0] == "chr":
            r = tok_in(c, pred)
            return r if isinstance(r, bool) else bool(r)
        # _prep made sure the class holds for all or none of the token's possible characters
        return all(pred(x) for x in alphabet_of(p))

    def _never(self, c, pred):
        if not is_tok(c):
            return not pred(ord(c))
        p = tok(c)
        return tok_in(c, pred) is False if p[0] == "chr" else not any(pred(x) for x in alphabet_of(p))

    def _at(self, where, s, i, flags):
        if where is K.AT_BEGINNING_STRING or (where is K.AT_BEGINNING and not flags & K.SRE_FLAG_MULTILINE):
            return i == 0
        if where is K.AT_BEGINNING:
            return i == 0 or self._test(s, i - 1, lambda c: c == 10)
        if where is K.AT_END_STRING:
            return i == len(s)
        if where is K.AT_END:
            if i == len(s):
                return True
            if flags & K.SRE_FLAG_MULTILINE:
                return self._test(s, i, lambda c: c == 10)
            return i == len(s) - 1 and self._test(s, i, lambda c: c == 10)
        if where in (K.AT_BOUNDARY, K.AT_NON_BOUNDARY):
            a = i > 0 and self._test(s, i - 1, _isword)
            b = i < len(s) and self._test(s, i, _isword)
            return (a != b) == (where is K.AT_BOUNDARY)
        raise NotImplementedError(str(where))

    def _seq(self, nodes, k, s, i, g, flags):
        if k == len(nodes):
            yield i, g
            return
        # a run of single-character tests fails as a whole when one of them cannot hold: no need to fork
        for d in range(k, len(nodes)):
            pred = _single(nodes[d], flags)
            if pred is None:
                break
            if i + d - k >= len(s) or self._never(s[i + d - k], pred):
                return
        for j, g2 in self._one(nodes[k], s, i, g, flags):
            yield from self._seq(nodes, k + 1, s, j, g2, flags)

    def _one(self, node, s, i, g, flags):
        op, av = node
        pred = _single(node, flags)
        if pred is not None:
            if i < len(s) and self._test(s, i, pred):
                yield i + 1, g
            return
        if op is K.AT:
            if self._at(av, s, i, flags):
                yield i, g
        elif op is K.SUBPATTERN:
            gn, add, dele, p = av
            f2 = (flags | add) & ~dele
            for j, g2 in self._seq(list(p), 0, s, i, g, f2):
                if gn is not None:
                    g2 = dict(g2)
                    g2[gn] = (i, j)
                yield j, g2
        elif op is K.BRANCH:
            for alt in av[1]:
                yield from self._seq(list(alt), 0, s, i, g, flags)
        elif op in (K.MAX_REPEAT, K.POSSESSIVE_REPEAT):
            yield from self._rep(av[0], av[1], list(av[2]), s, i, g, flags, True, 0)
        elif op is K.MIN_REPEAT:
            yield from self._rep(av[0], av[1], list(av[2]), s, i, g, flags, False, 0)
        elif op in (K.ASSERT, K.ASSERT_NOT):
            d, p = av
            if d < 0:
                w = p.getwidth()[0]
                it = self._seq(list(p), 0, s, i - w, g, flags) if i - w >= 0 else iter(())
            else:
                it = self._seq(list(p), 0, s, i, g, flags)
            ok = next(it, None)
            if (ok is not None) == (op is K.ASSERT):
                yield i, (ok[1] if ok and op is K.ASSERT else g)
        elif op is K.GROUPREF:
            a, b = g[av]
            t = s[a:b]
            if s[i:i + len(t)] == t:
                yield i + len(t), g
        else:
            raise NotImplementedError(str(op))

    def _rep(self, lo, hi, body, s, i, g, flags, greedy, n):
        if not greedy and n >= lo:
            yield i, g
        if hi is K.MAXREPEAT or n < hi:
            for j, g2 in self._seq(body, 0, s, i, g, flags):
                if j == i and n >= lo:
                    continue
                yield from self._rep(lo, hi, body, s, j, g2, flags, greedy, n + 1)
        if greedy and n >= lo:
            yield i, g

    def _matchat(self, s, i):
        r = next(self._seq(list(self.tree), 0, s, i, {}, self.flags), None)
        return None if r is None else M(s, i, r[0], r[1], self)

    # ---- public api
    def _prep(self, s):
        if not isinstance(s, str):
            s = str(s)
        if not has_tok(s):
            return s, False
        # whole-number and name tokens stay whole when the pattern cannot look inside them
        out = ""
        for c in s:
            out += tok_text(c) if is_tok(c) and tok(c)[0] != "chr" and not self._neutral(tok(c)) else c
        return out, has_tok(out)

    def _neutral(self, p):
        """No part of the pattern can split the text of this token."""
        al = alphabet_of(p)
        if not al:
            return False
        word = {_isword(x) for x in al}

        def walk(nodes, rep):
            for node in nodes:
                op, av = node
                pr = _single(node, self.flags)
                if pr is not None:
                    v = {bool(pr(x)) for x in al}
                    if len(v) > 1 or (v == {True} and not rep):
                        return False
                elif op is K.AT:
                    if av in (K.AT_BOUNDARY, K.AT_NON_BOUNDARY) and len(word) > 1:
                        return False
                elif op is K.SUBPATTERN:
                    if not walk(list(av[3]), rep and len(list(av[3])) == 1):
                        return False
                elif op in (K.MAX_REPEAT, K.MIN_REPEAT, K.POSSESSIVE_REPEAT):
                    b = list(av[2])
                    if not walk(b, av[0] <= 1 and av[1] is K.MAXREPEAT and len(b) == 1):
                        return False
                elif op is K.BRANCH:
                    if not all(walk(list(a), False) for a in av[1]):
                        return False
                else:
                    return False
            return True
        return walk(list(self.tree), False)

    def match(self, s, pos=0):
        s, sym = self._prep(s)
        return self._matchat(s, pos) if sym else self._p.match(s, pos)

    def fullmatch(self, s):
        s, sym = self._prep(s)
        if not sym:
            return self._p.fullmatch(s)
        for j, g in self._seq(list(self.tree), 0, s, 0, {}, self.flags):
            if j == len(s):
                return M(s, 0, j, g, self)
        return None

    def search(self, s, pos=0):
        s, sym = self._prep(s)
        if not sym:
            return self._p.search(s, pos)
        for i in range(pos, len(s) + 1):
            m = self._matchat(s, i)
            if m:
                return m
        return None

    def finditer(self, s):
        s, sym = self._prep(s)
        if not sym:
            yield from self._p.finditer(s)
            return
        i, last = 0, -1
        while i <= len(s):
            m = self._matchat(s, i)
            if m is None or (m.b == m.a and m.a == last):
                i += 1
                continue
            yield m
            last = m.b
            i = m.b if m.b > m.a else m.b + 1

    def findall(self, s):
        r = []
        for m in self.finditer(s):
            n = self._p.groups
            r.append(m.group(0) if n == 0 else (m.group(1) or "") if n == 1
                     else tuple(x or "" for x in m.groups()))
        return r

    def subn(self, repl, s, count=0):
        s, sym = self._prep(s)
        if not sym:
            return self._p.subn(repl, s, count)
        out, p, n = [], 0, 0
        for m in self.finditer(s):
            if count and n >= count:
                break
            out.append(s[p:m.a])
            out.append(repl(m) if callable(repl) else m.expand(repl))
            p = m.b
            n += 1
        out.append(s[p:])
        return "".join(out), n

    def sub(self, repl, s, count=0):
        return self.subn(repl, s, count)[0]

    def split(self, s, maxsplit=0):
        s, sym = self._prep(s)
        if not sym:
            return self._p.split(s, maxsplit)
        out, p, n = [], 0, 0
        for m in self.finditer(s):
            if maxsplit and n >= maxsplit:
                break
            out.append(s[p:m.a])
            out += list(m.groups())
            p = m.b
            n += 1
        out.append(s[p:])
        return out


class ReShim:
    """Stand-in for the `re` module."""

    def __getattr__(self, n):
        return getattr(_re, n)

    def compile(self, p, flags=0):
        return p if isinstance(p, Pat) else Pat(p, flags)

    def match(self, p, s, flags=0):
        return self.compile(p, flags).match(s)

    def fullmatch(self, p, s, flags=0):
        return self.compile(p, flags).fullmatch(s)

    def search(self, p, s, flags=0):
        return self.compile(p, flags).search(s)

    def findall(self, p, s, flags=0):
        return self.compile(p, flags).findall(s)

    def finditer(self, p, s, flags=0):
        return self.compile(p, flags).finditer(s)

    def sub(self, p, r, s, count=0, flags=0):
        return self.compile(p, flags).sub(r, s, count)

    def subn(self, p, r, s, count=0, flags=0):
        return self.compile(p, flags).subn(r, s, count)

    def split(self, p, s, maxsplit=0, flags=0):
        return self.compile(p, flags).split(s, maxsplit)
