"""Mechanical extraction of functions from Rust source text.

Works on the token level: comments are dropped, string/char literals are respected, braces are
matched.  Nothing is re-typed: a function body comes out as the source has it, apart from the
rewrites that the caller names explicitly (every one of them is recorded in `Extraction.log`).
"""
import os
import re


class LostAnchor(Exception):
    """The source no longer has the shape the extraction needs (tool limit, never an alarm)."""


def strip_comments(src):
    out = []
    i, n = 0, len(src)
    while i < n:
        c = src[i]
        if c == '/' and i + 1 < n and src[i + 1] == '/':
            j = src.find('\n', i)
            i = n if j < 0 else j
            continue
        if c == '/' and i + 1 < n and src[i + 1] == '*':
            depth, i = 1, i + 2
            while i < n and depth:
                if src.startswith('/*', i):
                    depth += 1
                    i += 2
                elif src.startswith('*/', i):
                    depth -= 1
                    i += 2
                else:
                    i += 1
            out.append(' ')
            continue
        j = literal_end(src, i)
        if j > i:
            out.append(src[i:j])
            i = j
            continue
        out.append(c)
        i += 1
    return ''.join(out)


def literal_end(src, i):
    """end of the string/char literal that starts at i, or i when none starts there"""
    c = src[i]
    prev = src[i - 1] if i else ' '
    if c in 'rb' and not (prev.isalnum() or prev == '_'):
        m = re.match(r'b?r(#*)"', src[i:i + 20])
        if m:
            end = src.find('"' + m.group(1), i + m.end())
            return end + 1 + len(m.group(1))
        if src.startswith('b"', i) or src.startswith("b'", i):
            return literal_end(src, i + 1)
        return i
    if c == '"':
        j = i + 1
        while src[j] != '"':
            j += 2 if src[j] == '\\' else 1
        return j + 1
    if c == "'":
        m = re.match(r"'(\\u\{[0-9a-fA-F_]+\}|\\x[0-9a-fA-F]{2}|\\.|[^\\'])'", src[i:i + 16], re.S)
        if m:
            return i + m.end()
    return i


def match_close(src, i):
    """index just after the bracket that closes the one at i"""
    pairs = {'{': '}', '(': ')', '[': ']'}
    stack = []
    n = len(src)
    while i < n:
        j = literal_end(src, i)
        if j > i:
            i = j
            continue
        c = src[i]
        if c in pairs:
            stack.append(pairs[c])
        elif c in '})]':
            if not stack or stack.pop() != c:
                raise LostAnchor('unbalanced brackets')
            if not stack:
                return i + 1
        i += 1
    raise LostAnchor('unbalanced brackets')


def find_open(src, i, ch='{'):
    """first `ch` at bracket depth 0 from i"""
    n = len(src)
    while i < n:
        j = literal_end(src, i)
        if j > i:
            i = j
            continue
        c = src[i]
        if c == ch:
            return i
        if c in '([{':
            i = match_close(src, i)
            continue
        if c == ';' and ch == '{':
            return -1
        i += 1
    return -1


def code_positions(src, regex):
    """matches of regex that do not start inside a literal"""
    lits = []
    i, n = 0, len(src)
    while i < n:
        j = literal_end(src, i)
        if j > i:
            lits.append((i, j))
            i = j
        else:
            i += 1
    starts = [a for a, _ in lits]
    import bisect
    for m in re.finditer(regex, src):
        k = bisect.bisect_right(starts, m.start()) - 1
        if k >= 0 and lits[k][0] < m.start() < lits[k][1]:
            continue
        yield m


def norm(s):
    return re.sub(r'\s+', ' ', s).strip()


class Source:
    def __init__(self, path):
        if not os.path.exists(path):
            raise LostAnchor('no file ' + path)
        self.path = path
        src = open(path, encoding='utf-8').read()
        src = strip_comments(src)
        # drop the unit-test modules
        while True:
            m = re.search(r'#\[cfg\(test\)\]\s*(?:pub(?:\(crate\))?\s+)?mod\s+\w+\s*\{', src)
            if not m:
                break
            e = match_close(src, m.end() - 1)
            src = src[:m.start()] + src[e:]
        self.src = src

    def impls(self, name):
        """bodies of every `impl [..] name [..] { }` (inherent) or `impl Trait for name`"""
        res = []
        for m in code_positions(self.src, r'\bimpl\b'):
            o = find_open(self.src, m.end())
            if o < 0:
                continue
            head = norm(self.src[m.end():o])
            if head == name or re.fullmatch(r'(<.*?>\s*)?' + re.escape(name) + r'(<.*>)?(\s*where.*)?', head):
                res.append((o + 1, match_close(self.src, o) - 1))
        return res

    def item(self, kw, name):
        """text of `struct/enum name {...}` with attributes dropped"""
        for m in code_positions(self.src, r'\b%s\s+%s\b' % (kw, name)):
            o = find_open(self.src, m.end())
            if o < 0:
                e = self.src.index(';', m.end()) + 1
                return self.src[m.start():e]
            return self.src[m.start():match_close(self.src, o)]
        raise LostAnchor('no %s %s in %s' % (kw, name, self.path))

    def fn(self, path):
        """`name` (module level) or `Type::name` -> Fn"""
        if '::' in path:
            ty, name = path.rsplit('::', 1)
            spans = self.impls(ty)
            if not spans:
                raise LostAnchor('no impl %s in %s' % (ty, self.path))
        else:
            name, spans = path, [(0, len(self.src))]
        hits = []
        for a, b in spans:
            for m in code_positions(self.src[a:b], r'\bfn\s+%s\b' % re.escape(name)):
                o = find_open(self.src, a + m.end())
                if o < 0:
                    continue
                hits.append((a + m.start(), o, match_close(self.src, o)))
        if len(hits) != 1:
            raise LostAnchor('%d definitions of %s in %s' % (len(hits), path, self.path))
        s, o, e = hits[0]
        return Fn(path, norm(self.src[s:o]), self.src[o:e], self.path)


LOOP = r'(?:(?<![\w\'])|(?<=: ))(?:for\b(?!\s*<)|while\b|loop\b)'


class Fn:
    def __init__(self, path, sig, body, file):
        self.path, self.sig, self.body, self.file = path, sig, body, file
        self.log = []

    def expect_sig(self, regex):
        if not re.fullmatch(regex, self.sig):
            raise LostAnchor('signature of %s is now `%s`' % (self.path, self.sig))
        return self

    def loops(self):
        return [norm(self.body[m.start():find_open(self.body, m.end())]) for m in code_positions(self.body, LOOP)]

    def rewrite(self, regex, repl, why, count=None):
        new, n = re.subn(regex, repl, self.body)
        if count is not None and n != count:
            raise LostAnchor('%s: rewrite `%s` applies %d times, expected %d' % (self.path, regex, n, count))
        if n:
            self.log.append('%s: %s (%d sites)' % (self.path, why, n))
        self.body = new
        return self

    def annotate_loops(self, specs):
        """specs: list of (header regex, new header or None, invariant text, body-start text, body-end text)"""
        ms = list(code_positions(self.body, LOOP))
        heads = self.loops()
        if len(ms) != len(specs):
            raise LostAnchor('%s has %d loops, annotations are for %d' % (self.path, len(ms), len(specs)))
        for m, head, sp in reversed(list(zip(ms, heads, specs))):
            rx, newhead, inv, start, end = (list(sp) + [''] * 5)[:5]
            if not re.fullmatch(rx, head):
                raise LostAnchor('%s: loop `%s` is not `%s`' % (self.path, head, rx))
            o = find_open(self.body, m.end())
            e = match_close(self.body, o)
            self.body = (self.body[:m.start()] + (re.sub(rx, newhead, head) if newhead else head) + '\n' + inv + '\n{\n' + start
                         + self.body[o + 1:e - 1] + (end or '') + self.body[e - 1:])
        return self

    def _arms(self, b, i):
        """arms of the match whose `{` is at i: [(pattern, guard or None, body text as a block)], end"""
        e = match_close(b, i)
        k, arms = i + 1, []
        while True:
            k += re.match(r'\s*', b[k:]).end()
            if k >= e - 1:
                break
            j = k
            while not b.startswith('=>', j):
                x = literal_end(b, j)
                j = x if x > j else (match_close(b, j) if b[j] in '([{' else j + 1)
            pat = norm(b[k:j])
            g = None
            m = re.match(r'(.*?) if (.*)$', pat)
            if m:
                pat, g = m.group(1), m.group(2)
            j += 2
            j += re.match(r'\s*', b[j:]).end()
            if b[j] == '{':
                z = match_close(b, j)
                body = b[j:z]
            else:
                z = j
                while z < e - 1 and b[z] != ',':
                    x = literal_end(b, z)
                    z = x if x > z else (match_close(b, z) if b[z] in '([{' else z + 1)
                body = '{ ' + b[j:z] + ' }'
            k = z + re.match(r'\s*,?', b[z:]).end()
            arms.append((pat, g, body))
        return arms, e

    def match_str(self):
        """`match <text> { "A" | "B" => X, v => Y }` -> `{ let _m = <text>; if x_eq(&_m, "A") || x_eq(&_m, "B") { X } else { Y } }`, innermost first"""
        n = 0
        while True:
            hit = None
            for m in code_positions(self.body, r'\bmatch\b'):
                o = find_open(self.body, m.end())
                if o > 0 and re.match(r'\{\s*"', self.body[o:]):
                    hit = (m.start(), o)
            if not hit:
                break
            i, o = hit
            scrut = norm(self.body[i + 5:o])
            scrut = re.sub(r'^&\*', '', scrut)
            if re.fullmatch(r'\w+', scrut):
                scrut = '&' + scrut
            arms, e = self._arms(self.body, o)
            out = '{ let _m = %s; ' % scrut
            for pat, g, body in arms:
                if g:
                    raise LostAnchor('%s: guard in a match on a text' % self.path)
                if pat.startswith('"'):
                    out += 'if %s %s else ' % (' || '.join('x_eq(&_m, %s)' % x.strip() for x in re.findall(r'"(?:[^"\\]|\\.)*"', pat)), body)
                elif pat == '_':
                    out += body
                else:
                    out += '{ let %s = _m.as_str(); %s }' % (pat, body)
            self.body = self.body[:i] + out + ' }' + self.body[e:]
            n += 1
        if n:
            self.log.append('%s: match on a text written as an if-chain of comparisons (%d sites)' % (self.path, n))
        return self

    def merge_guards(self, pat='Some(Ok(pair))'):
        """`P if c1 => A, P if c2 => B, P => C` (consecutive arms) -> `P => { if c1 { A } else if c2 { B } else { C } }`"""
        b, pos, n = self.body, 0, 0

        def arm(i):
            # body of the arm whose `=>` ends at i -> (text, end)
            j = i + re.match(r'\s*', b[i:]).end()
            if b[j] == '{':
                e = match_close(b, j)
                if re.match(r'\s*(,|\}|[A-Z_a-z(])', b[e:]):
                    return b[j:e], e + re.match(r'\s*,?', b[e:]).end()
            k = j
            while b[k] != ',' and b[k] not in ')}]':
                x = literal_end(b, k)
                k = x if x > k else (match_close(b, k) if b[k] in '([{' else k + 1)
            return '{ ' + b[j:k] + ' }', k + (1 if b[k] == ',' else 0)
        while True:
            i = b.find(pat + ' if ', pos)
            if i < 0:
                break
            out, k = '', i
            while b.startswith(pat + ' if ', k):
                a = b.index('=>', k)
                cond = b[k + len(pat) + 4:a].strip()
                t, e = arm(a + 2)
                out += 'if %s %s else ' % (cond, t)
                k = e + re.match(r'\s*', b[e:]).end()
            if not b.startswith(pat + ' =>', k):
                raise LostAnchor('%s: guarded arms without a last one' % self.path)
            t, e = arm(b.index('=>', k) + 2)
            b = b[:i] + pat + ' => { ' + out + t + ' }\n' + b[e:]
            pos = i + len(pat) + 4
            n += 1
        self.body = b
        if n:
            self.log.append('%s: consecutive guarded match arms written as if/else (%d sites)' % (self.path, n))
        return self

    def insert_start(self, text):
        self.body = '{\n' + text + self.body[1:]
        return self

    def insert_before_tail(self, text):
        """insert a proof block before the function's tail expression (the last expression)"""
        b = self.body
        # position after the last `;` or `}` at depth 1
        i, last = 1, 1
        n = len(b) - 1
        while i < n:
            j = literal_end(b, i)
            if j > i:
                i = j
                continue
            if b[i] in '([{':
                k = match_close(b, i)
                if b[i] == '{' and not re.match(r'\s*(else\b|\.|\?|as\b|[-+*/=<>&|])', b[k:]) and b[k:n].strip():
                    last = k
                i = k
                continue
            if b[i] == ';':
                last = i + 1
            i += 1
        self.body = b[:last] + '\n' + text + '\n' + b[last:]
        return self

    def text(self, sig, spec=''):
        return '%s\n%s\n%s\n' % (sig, spec, self.body)
