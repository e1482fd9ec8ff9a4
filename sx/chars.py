"""Arbitrary characters: a symbolic character is a placeholder (plane 16 private use) whose code point is a solver variable."""
import io
import re
import tokenize

BASE = 0x100000
LINE_ENDS = '\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029'
_RE = re.compile('[\U00100000-\U001000ff]')


def present(s):
    return _RE.search(s) is not None


def placeholder(k):
    return chr(BASE + k)


def code(eng, ch):
    """code point of a character: int or solver variable"""
    return eng.chars[ord(ch) - BASE] if _RE.match(ch) else ord(ch)


def m_replace(eng, s, old, new, *cnt):
    if cnt:
        from .engine import Unsupported
        raise Unsupported('replace with a count on symbolic characters')
    if len(old) == 0:
        return s.replace(old, new)
    out, i = [], 0
    while i < len(s):
        m = i + len(old) <= len(s)
        if m:
            for j, o in enumerate(old):
                c = s[i + j]
                if not (c == o or (_RE.match(c) and not _RE.match(o) and code(eng, c) == ord(o))):
                    m = False
                    break
        if m:
            out.append(new)
            i += len(old)
        else:
            out.append(s[i])
            i += 1
    return ''.join(out)


def m_translate(eng, s, table):
    out = []
    for c in s:
        if _RE.match(c):
            for k in table:
                if code(eng, c) == k:
                    v = table[k]
                    out.append('' if v is None else chr(v) if isinstance(v, int) else v)
                    break
            else:
                out.append(c)
        else:
            out.append(c.translate(table))
    return ''.join(out)


def m_splitlines(eng, s, *a):
    for c in set(_RE.findall(s)):
        if any(code(eng, c) == ord(e) for e in LINE_ENDS):
            from .engine import Unsupported
            # the exact line structure is left to the concrete cases
            raise Unsupported('splitlines at a symbolic character')
    return s.splitlines(*a)


def raw_constraints(py):
    """(placeholder, characters it must not be) for every symbolic character that stands unescaped in generated source"""
    out, stack = set(), []
    for t in tokenize.generate_tokens(io.StringIO(py).readline):
        if t.type == tokenize.FSTRING_START:
            stack.append(t.string)
        elif t.type == tokenize.FSTRING_END:
            stack.pop()
        elif present(t.string):
            if t.type == tokenize.FSTRING_MIDDLE and stack and 'r' not in stack[-1].lower():
                special = stack[-1][-1] + '\\{}\n\r\0'
            elif t.type == tokenize.STRING and t.string[0] in '"\'':
                special = t.string[0] + '\\\n\r\0'
            else:
                special = None
            for c in _RE.findall(t.string):
                out.add((c, special))
    return out
