"""Demangled C++ name handling: strip template arguments, split them, type leaves."""
import re
from functools import lru_cache

_OPS = ['operator<<=', 'operator>>=', 'operator<=>', 'operator->*', 'operator<<', 'operator>>', 'operator<=', 'operator>=',
        'operator->', 'operator<', 'operator>', 'operator()']


@lru_cache(maxsize=None)
def strip(dn):
    """simplified qualified name without template args / parameters / return type."""
    s = dn if '[abi:' not in dn else re.sub(r'\[abi:\w+\]', '', dn)
    out = []
    depth = 0
    i = 0
    n = len(s)
    while i < n:
        hit = None
        if s.startswith('operator', i) and (i == 0 or not (s[i - 1].isalnum() or s[i - 1] == '_')):
            for o in _OPS:
                if s.startswith(o, i):
                    hit = o
                    break
        if hit:
            # 'operator<' followed by template args "operator< <..>" or 'operator<<<'
            if depth == 0:
                out.append(hit)
            i += len(hit)
            continue
        c = s[i]
        if c == '<':
            depth += 1
        elif c == '>':
            depth -= 1
        elif depth == 0:
            if c == '(':
                if s.startswith('(anonymous namespace)', i):
                    out.append('(anonymous namespace)')
                    i += len('(anonymous namespace)')
                    continue
                if ''.join(out).endswith('decltype'):
                    break
                # an entity inside a function, such as a lambda, is not that function
                d, j = 0, i
                while j < n:
                    d += 1 if s[j] == '(' else -1 if s[j] == ')' else 0
                    j += 1
                    if d == 0:
                        break
                m = re.match(r'(?: const)?(::.*)', s[j:])
                if m:
                    return strip(s[:j]) + '::@local' + ('::operator()' if 'operator()' in m.group(1) else '')
                break
            out.append(c)
        i += 1
    r = ''.join(out).strip()
    # drop a return type (template functions carry one) : last token unless operator conversion
    if ' operator' in r:
        k = r.index(' operator')
        if '::operator' in r:
            k = r.index('::operator')
            head, tail = r[:k], r[k:]
            head = head.split(' ')[-1] if '(anonymous' not in head else head
            return (head + tail).strip().replace(' ', '')
    if '(anonymous namespace)' in r:
        r2 = r.replace('(anonymous namespace)', '@anon')
        if 'operator' not in r2:
            r2 = r2.split(' ')[-1]
        return r2
    m = re.search(r'operator', r)
    if m:
        k = m.start()
        head, tail = r[:k], r[k:]
        head = head.split(' ')[-1]
        return (head + tail).strip()
    return r.split(' ')[-1]


def split_args(s):
    out, depth, cur = [], 0, ''
    for c in s:
        if c in '<([':
            depth += 1
        elif c in '>)]':
            depth -= 1
        if c == ',' and depth == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


@lru_cache(maxsize=None)
def targs(dn, cls):
    """template args of first occurrence of `cls<` in dn (list of strings)"""
    for m in re.finditer(re.escape(cls) + r'<', dn):
        if m.start() > 0 and (dn[m.start() - 1].isalnum() or dn[m.start() - 1] == '_'):
            continue
        i = m.end()
        depth = 1
        j = i
        while j < len(dn) and depth:
            if dn[j] == '<':
                depth += 1
            elif dn[j] == '>':
                depth -= 1
            j += 1
        return tuple(split_args(dn[i:j - 1]))
    return None


@lru_cache(maxsize=None)
def params(dn):
    """parameter type strings of a demangled function"""
    # last top-level (...) group
    s = dn
    end = None
    depth = 0
    i = len(s) - 1
    while i >= 0 and s[i] != ')':
        i -= 1
    if i < 0:
        return ()
    j = i
    depth = 0
    while j >= 0:
        if s[j] in ')>' and not (s[j] == '>' and s[j - 1] == '-'):
            depth += 1
        elif s[j] in '(<':
            depth -= 1
            if depth == 0:
                break
        j -= 1
    inner = s[j + 1:i]
    if inner.strip() == '':
        return ()
    return tuple(split_args(inner))


def clean_type(t):
    t = t.strip()
    t = re.sub(r'\bconst\b', '', t)
    t = re.sub(r'\b(class|struct|enum) ', '', t)
    t = t.replace('std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >', 'std::string')
    t = t.replace('std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>', 'std::string')
    t = t.replace('std::basic_string<char, std::char_traits<char>, std::allocator<char> >', 'std::string')
    t = t.replace('std::basic_string<char>', 'std::string')
    t = t.replace('std::__cxx11::string', 'std::string')
    t = t.replace('__cxx11::', '')
    t = re.sub(r'\s+', ' ', t).strip()
    return t
