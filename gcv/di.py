"""Debug-info types: field names, offsets and pointee types of the real classes, read from the generated IR."""
import re


class DT:
    """k: base|enum|ptr|class|array|void|func"""
    __slots__ = ('k', 'name', 'size', 'enc', 'elem', 'count', 'fields', 'bases', 'ident', 'node', 'mod', '_full', 'vptr', 'ident_full')

    def __repr__(self):
        return 'DT(%s %s)' % (self.k, self.name)


class DIDB:
    def __init__(self, prog):
        self.prog = prog
        self.cache = {}
        self.byname = {}
        self.scanned = set()

    def scan(self):
        for s, m in self.prog.modules.items():
            if m is None or s in self.scanned:
                continue
            self.scanned.add(s)
            for n, raw in m.meta.items():
                if raw.startswith('!DICompositeType(') and 'DIFlagFwdDecl' not in raw and ('class_type' in raw or 'structure_type' in raw):
                    mm = re.search(r'\bname: "([^"]*)"', raw)
                    if mm:
                        self.byname.setdefault(mm.group(1), []).append((m, n))
                elif raw.startswith('!DICompositeType(tag: DW_TAG_enumeration_type'):
                    mm = re.search(r'\bname: "([^"]*)"', raw)
                    if mm:
                        self.byname.setdefault('enum ' + mm.group(1), []).append((m, n))

    def cls(self, name):
        self.scan()
        c = self.byname.get(name) or (self.byname.get(name[5:]) if name.startswith('std::') else None)
        if not c:
            raise KeyError('no class %s in debug info' % name)
        return self.get(*c[0])

    def enum_values(self, name):
        self.scan()
        m, n = self.byname['enum ' + name][0]
        raw = m.meta[n]
        el = self._ref(raw, 'elements')
        out = {}
        for r in re.findall(r'!\d+', m.meta[el]):
            e = m.meta[r]
            out[re.search(r'name: "([^"]*)"', e).group(1)] = int(re.search(r'value: (-?\d+)', e).group(1))
        return out

    @staticmethod
    def _ref(raw, key):
        m = re.search(r'\b%s: (!\d+|null)' % key, raw)
        return m.group(1) if m and m.group(1) != 'null' else None

    @staticmethod
    def _int(raw, key, d=0):
        m = re.search(r'\b%s: (\d+)' % key, raw)
        return int(m.group(1)) if m else d

    @staticmethod
    def _str(raw, key):
        m = re.search(r'\b%s: "([^"]*)"' % key, raw)
        return m.group(1) if m else None

    def get(self, mod, node):
        """node: metadata id or None"""
        if node is None:
            t = DT(); t.k = 'void'; t.name = 'void'; t.size = 0
            return t
        key = (mod.path, node)
        if key in self.cache:
            return self.cache[key]
        raw = mod.meta[node]
        if raw.startswith('!DIDerivedType'):
            tag = re.search(r'DW_TAG_(\w+)', raw).group(1)
            base = self._ref(raw, 'baseType')
            if tag in ('typedef', 'const_type', 'volatile_type', 'member', 'inheritance', 'restrict_type', 'atomic_type'):
                t = self.get(mod, base)
                self.cache[key] = t
                return t
            if tag in ('pointer_type', 'reference_type', 'rvalue_reference_type', 'ptr_to_member_type'):
                t = DT(); t.k = 'ptr'; t.size = 8; t.name = None
                t.node, t.mod, t.elem = base, mod, None
                self.cache[key] = t
                return t
            raise KeyError('DI tag ' + tag)
        if raw.startswith('!DIBasicType'):
            t = DT(); t.k = 'base'; t.name = self._str(raw, 'name'); t.size = self._int(raw, 'size') // 8
            m = re.search(r'DW_ATE_(\w+)', raw)
            t.enc = m.group(1) if m else 'void'
            self.cache[key] = t
            return t
        if raw.startswith('!DISubroutineType'):
            t = DT(); t.k = 'func'; t.name = 'func'; t.size = 0
            self.cache[key] = t
            return t
        if raw.startswith('!DICompositeType'):
            tag = re.search(r'DW_TAG_(\w+)', raw).group(1)
            t = DT()
            t.size = self._int(raw, 'size') // 8
            t.name = self._str(raw, 'name')
            t.mod, t.node = mod, node
            t.ident = self._str(raw, 'identifier')
            self.cache[key] = t
            if tag == 'enumeration_type':
                t.k = 'enum'; t.enc = 'unsigned'
                b = self._ref(raw, 'baseType')
                if b:
                    t.enc = self.get(mod, b).enc
                return t
            if tag == 'array_type':
                t.k = 'array'
                el = self.get(mod, self._ref(raw, 'baseType'))
                counts = []
                for r in re.findall(r'!\d+', mod.meta[self._ref(raw, 'elements')]):
                    counts.append(self._int(mod.meta[r], 'count', 0))
                # multi-dim: nest
                for c in reversed(counts[1:]):
                    u = DT(); u.k = 'array'; u.elem = el; u.count = c; u.size = el.size * c; u.name = None
                    el = u
                t.elem, t.count = el, counts[0]
                if not t.size:
                    t.size = el.size * t.count
                return t
            t.k = 'class'
            t._full = None
            if 'DIFlagFwdDecl' in raw:
                # look for the full definition elsewhere
                self.scan()
                c = self.byname.get(t.name)
                if c:
                    t2 = self.get(*c[0])
                    self.cache[key] = t2
                    return t2
            return t
        raise KeyError('DI node ' + raw[:80])

    def pointee(self, t):
        if t.elem is None:
            t.elem = self.get(t.mod, t.node)
        e = t.elem
        if e.k == 'class' and e._full is None and e.size == 0:
            raw = e.mod.meta[e.node]
            if 'DIFlagFwdDecl' in raw:
                self.scan()
                c = self.byname.get(e.name)
                if c:
                    t.elem = e = self.get(*c[0])
        return e

    def full(self, t):
        """class layout: fields list [(name, off, type)], bases [(off, type)]"""
        if t._full is not None:
            return t
        raw = t.mod.meta[t.node]
        t.fields, t.bases, t.vptr = [], [], False
        t.ident_full = t.ident
        el = self._ref(raw, 'elements')
        if el:
            for r in re.findall(r'!\d+', t.mod.meta[el]):
                e = t.mod.meta[r]
                if not e.startswith('!DIDerivedType'):
                    continue
                tag = re.search(r'DW_TAG_(\w+)', e).group(1)
                off = self._int(e, 'offset')
                if tag == 'inheritance':
                    t.bases.append((off // 8, self.get(t.mod, self._ref(e, 'baseType'))))
                elif tag == 'member':
                    if 'DIFlagStaticMember' in e:
                        continue
                    nm = self._str(e, 'name')
                    if nm and nm.startswith('_vptr'):
                        t.vptr = True
                        continue
                    t.fields.append((nm, off // 8, self.get(t.mod, self._ref(e, 'baseType'))))
        t._full = True
        return t

    def find_field(self, t, name):
        """(offset, type) searching bases; derived first"""
        self.full(t)
        for n, o, ft in t.fields:
            if n == name:
                return o, ft
        for o, bt in t.bases:
            r = self.find_field(bt, name)
            if r:
                return r[0] + o, r[1]
        return None

    def all_fields(self, t, base=0):
        self.full(t)
        for o, bt in t.bases:
            yield from self.all_fields(bt, base + o)
        for n, o, ft in t.fields:
            yield n, base + o, ft

    def is_poly(self, t):
        self.full(t)
        return t.vptr or any(self.is_poly(bt) for _, bt in t.bases)

    def derives(self, t, name):
        self.full(t)
        return t.name == name or any(self.derives(b, name) for _, b in t.bases)

    def leaf(self, t, off, path=''):
        """leaf (path, type, leafoff) at byte offset off in t; type 'vptr' for a vtable pointer"""
        if t.k == 'class':
            self.full(t)
            for o, bt in t.bases:
                if o <= off < o + max(bt.size, 1) and bt.size:
                    r = self.leaf(bt, off - o, path)
                    if r:
                        return r
            for n, o, ft in t.fields:
                if o <= off < o + ft.size:
                    return self.leaf(ft, off - o, path + ('.' if path else '') + (n or '_'))
            if off == 0 and t.vptr:
                return (path + '.$vptr', 'vptr', 0)
            return None
        if t.k == 'array':
            i = off // t.elem.size
            return self.leaf(t.elem, off - i * t.elem.size, '%s[%d]' % (path, i))
        return (path, t, off)

    def class_at(self, t, off):
        """outermost class object beginning at off inside t whose vptr is at off (exact dynamic type of a member)"""
        if off == 0 and t.k == 'class':
            return t
        if t.k == 'class':
            self.full(t)
            for o, bt in t.bases:
                if o <= off < o + bt.size and bt.size:
                    if o == off and self.is_poly(bt):
                        return ('base', t, o)
                    r = self.class_at(bt, off - o)
                    if r:
                        return r
            for n, o, ft in t.fields:
                if o <= off < o + ft.size:
                    return self.class_at(ft, off - o)
            return None
        if t.k == 'array':
            i = off // t.elem.size
            return self.class_at(t.elem, off - i * t.elem.size)
        return None

    def array_at(self, t, off, esz):
        """(start,end) bytes of the innermost array with element size esz containing off"""
        if t.k == 'class':
            self.full(t)
            for o, bt in t.bases:
                if bt.size and o <= off < o + bt.size:
                    r = self.array_at(bt, off - o, esz)
                    if r:
                        return r[0] + o, r[1] + o
            for n, o, ft in t.fields:
                if o <= off < o + ft.size:
                    r = self.array_at(ft, off - o, esz)
                    return (r[0] + o, r[1] + o) if r else None
            return None
        if t.k == 'array':
            if t.elem.size == esz:
                return 0, t.size
            i = off // t.elem.size
            r = self.array_at(t.elem, off - i * t.elem.size, esz)
            return (r[0] + i * t.elem.size, r[1] + i * t.elem.size) if r else None
        return None

    def mangled(self, t):
        if t.ident and t.ident.startswith('_ZTS'):
            return t.ident[4:]
        if t.name and re.fullmatch(r'\w+', t.name):
            return '%d%s' % (len(t.name), t.name)
        raise KeyError('no mangled name for class %s' % t.name)
