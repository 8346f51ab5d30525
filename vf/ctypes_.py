"""C++ type strings -> type descriptors (tuples)."""
from .astdb import canon, ExtractionError
import functools

INTS = {
    'bool': ('bool',), 'char': ('int', 8, True), 'signed char': ('int', 8, True), 'unsigned char': ('int', 8, False),
    'short': ('int', 16, True), 'unsigned short': ('int', 16, False), 'int': ('int', 32, True), 'unsigned int': ('int', 32, False),
    'long': ('int', 64, True), 'unsigned long': ('int', 64, False), 'long long': ('int', 64, True), 'unsigned long long': ('int', 64, False),
    'float': ('real',), 'double': ('real',), 'long double': ('real',), 'void': ('void',),
    'std::size_t': ('int', 64, False), 'size_t': ('int', 64, False), 'std::uint32_t': ('int', 32, False), 'uint32_t': ('int', 32, False),
    'std::uint8_t': ('int', 8, False), 'uint8_t': ('int', 8, False), 'std::ptrdiff_t': ('int', 64, True), 'ptrdiff_t': ('int', 64, True),
    'std::string_view': ('str',), 'std::string': ('str',), 'std::basic_string_view<char>': ('str',),
    'std::nullptr_t': ('ptr', ('void',)), 'std::uint16_t': ('int', 16, False), 'std::uintptr_t': ('int', 64, False),
    'unsigned': ('int', 32, False), 'std::pmr::string': ('str',),
}


def split_args(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '<([':
            d += 1
        if ch in '>)]':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip()); cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


class Types:
    def __init__(self, db):
        self.db = db
        self.memo = {}
        self.addr = False       # pointers to anything but records of the library are addresses

    def parse(self, s):
        if s not in self.memo:
            self.memo[s] = self._parse(s)
        return self.memo[s]

    def _parse(self, s0):
        s = canon(s0)
        # trailing const after canon of 'T *const'
        while s.endswith('const'):
            s = s[:-5].strip()
        if s in INTS:
            return INTS[s]
        if s.endswith('&&'):
            return ('ref', self.parse(s[:-2].strip()))
        if s.endswith('&'):
            return ('ref', self.parse(s[:-1].strip()))
        if s.endswith('*'):
            to = self.parse(s[:-1].strip())
            if self.addr and to[0] in ('int', 'void', 'opaque'):
                return ('int', 64, False)
            return ('ptr', to)
        if s.endswith(']') and '[' in s:
            i = s.rindex('[')
            n = s[i + 1:-1]
            return ('carr', self.parse(s[:i].strip()), int(n) if n.isdigit() else None)
        if s.endswith('>') and s.startswith(('std::', '__gnu_cxx::')):
            i = s.index('<')
            head, args = s[:i], split_args(s[i + 1:-1])
            h = head.split('::')[-1]
            if h in ('vector', 'deque', 'list'):
                return ('vec', self.parse(args[0]))
            if h in ('map', 'unordered_map'):
                return ('map', self.parse(args[0]), self.parse(args[1]), h == 'map', args[2] if len(args) > 2 else '')
            if h == 'multimap':
                return ('mmap', self.parse(args[0]), self.parse(args[1]))
            if h in ('set', 'unordered_set'):
                return ('map', self.parse(args[0]), ('unit',), h == 'set', args[1] if len(args) > 1 else '')
            if h == 'pair':
                return ('pair', self.parse(args[0]), self.parse(args[1]))
            if h in ('basic_string', 'basic_string_view'):
                return ('str',)
            if h in ('unique_ptr',):
                return ('uptr', self.parse(args[0]))
            if h in ('shared_ptr',):
                return ('uptr', self.parse(args[0]))
            if h == '__normal_iterator':
                t = self.parse(args[0])
                return ('vecit', t[1])
            if h in ('_Rb_tree_iterator', '_Rb_tree_const_iterator'):
                a = self.parse(args[0])
                if a[0] == 'pair':
                    return ('mapit', a[1], a[2])
                return ('setit', a)
            if h in ('_Node_iterator', '_Node_const_iterator'):
                a = self.parse(args[0])
                if a[0] == 'pair':
                    return ('mapit', a[1], a[2])
                return ('setit', a)
            if h == 'bitset':
                return ('bitset', int(args[0]))
            if h == 'array':
                return ('carr', self.parse(args[0]), int(args[1]))
            if h == 'initializer_list':
                return ('vec', self.parse(args[0]))
            if h == 'priority_queue':
                return ('pq', self.parse(args[0]), args[2] if len(args) > 2 else '')
            if h in ('function',):
                return ('fn',)
            if h in ('less', 'allocator', 'polymorphic_allocator'):
                return ('opaque', s)
            return ('opaque', s)
        if self.db.record(s) is not None:
            return self.container_base(s) or ('rec', s)
        for cand in ('mewa::' + s,):
            if self.db.record(cand) is not None:
                return self.container_base(cand) or ('rec', cand)
            if cand in self.db.enumtype:
                return ('int', 32, True)
        if s in self.db.enumtype or s.startswith('(unnamed enum') or s.startswith('enum'):
            e = self.db.enumtype.get(s)
            if e is not None and 'fixedUnderlyingType' in e:
                f = e['fixedUnderlyingType']
                return self.parse(f.get('desugaredQualType', f['qualType']))
            return ('int', 32, True)
        # '(unnamed enum at ...)' or nested enum printed without scope
        if 'unnamed enum' in s or '(unnamed at' in s:
            return ('int', 32, True)
        for e in self.db.enumtype:
            if e.endswith('::' + s):
                return ('int', 32, True)
        t = self.db.typedefs.get(s) or self.db.typedefs.get('mewa::' + s)
        if t and canon(t) != s:
            return self.parse(t)
        hits = [r for r in self.db.records if r.endswith('::' + s)]
        if len(hits) == 1:
            return self.container_base(hits[0]) or ('rec', hits[0])
        return ('opaque', s)

    def container_base(self, name):
        """a record without fields of its own that derives from a standard sequence is that sequence"""
        r = self.db.record(name)
        bs = r.get('bases', ())
        if len(bs) == 1 and not any(c.get('kind') == 'FieldDecl' for c in r.get('inner', ())):
            b = bs[0]['type']
            b = canon(b.get('desugaredQualType', b['qualType']))
            if b.startswith('std::'):
                t = self.parse(b)
                if t[0] in ('vec', 'map', 'str'):
                    return t
        return None
