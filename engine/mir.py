"""The program: types and MIR as dumped by the driver, plus the structural facts the analysis keys on."""
import json


class Fn:
    __slots__ = ('id', 'path', 'full', 'local', 'kind', 'crate', 'sig', 'trait', 'impl_trait', 'impl_tref',
                 'impl_targs', 'impl_self', 'file', 'line', 'reach', 'generic', 'poly', 'argc', 'locals',
                 'names', 'bbs', 'derived', 'unsafe', 'spread', '_loops', 'name')

    def __init__(self, d):
        for k in self.__slots__:
            setattr(self, k, d.get(k))
        self.name = (self.path or '').rsplit('::', 1)[-1]
        self._loops = None

    def succs(self, b):
        t = self.bbs[b][1]
        k = t[0]
        if k == 'goto':
            return [t[1]]
        if k == 'sw':
            return [x[1] for x in t[2]] + [t[3]]
        if k == 'drop':
            return [t[2]]
        if k == 'call':
            return [t[4]] if t[4] is not None else []
        if k == 'assert':
            return [t[4]]
        return []

    @property
    def loops(self):
        """header -> set of blocks of its natural loop (unwind edges left out)"""
        if self._loops is None:
            self._loops = {}
            n = len(self.bbs)
            color = [0] * n
            back = []
            st = [(0, iter(self.succs(0)))]
            color[0] = 1
            while st:
                b, it = st[-1]
                for s in it:
                    if color[s] == 0:
                        color[s] = 1
                        st.append((s, iter(self.succs(s))))
                        break
                    if color[s] == 1:
                        back.append((b, s))
                else:
                    color[b] = 2
                    st.pop()
            pred = [[] for _ in range(n)]
            for b in range(n):
                if color[b]:
                    for s in self.succs(b):
                        pred[s].append(b)
            for b, h in back:
                body = self._loops.setdefault(h, {h})
                w = [b]
                while w:
                    x = w.pop()
                    if x not in body:
                        body.add(x)
                        w.extend(pred[x])
        return self._loops


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d['types']
        self.fns = [Fn(f) for f in d['fns']]
        self.statics = d['statics']
        self.adts = d['adts']
        self.impls = d['impls']
        self.ptr_bits = d['ptr_bits']
        self.debug = d['debug_assertions']
        self.by_name = {t['n']: i for i, t in enumerate(self.types)}
        self.structure()

    def structure(self):
        self.t_ubig = self.find_adt('ubig::UBig')
        self.t_ibig = self.find_adt('ibig::IBig')
        self.t_repr = self.types[self.t_ubig]['v'][0][2][0][1]
        rt = self.types[self.t_repr]
        self.v_small = self.v_large = self.t_word = self.t_buffer = None
        for i, v in enumerate(rt.get('v', [])):
            if len(v[2]) == 1:
                ft = v[2][0][1]
                if self.types[ft]['k'] == 'uint':
                    self.v_small, self.t_word = i, ft
                elif self.types[ft]['k'] == 'struct':
                    self.v_large, self.t_buffer = i, ft
        if None in (self.v_small, self.v_large):
            raise SystemExit('anchor lost: UBig is no longer a word or a buffer of words')
        self.word_bits = self.types[self.t_word]['bits']
        it = self.types[self.t_ibig]['v'][0][2]
        self.f_sign = [i for i, f in enumerate(it) if self.types[f[1]]['k'] == 'enum'][0]
        self.f_mag = [i for i, f in enumerate(it) if f[1] == self.t_ubig][0]
        self.t_sign = it[self.f_sign][1]
        vs = [v[0] for v in self.types[self.t_sign]['v']]
        self.v_pos, self.v_neg = vs.index('Positive'), vs.index('Negative')

    def find_adt(self, path):
        for i, t in enumerate(self.types):
            if t.get('def') == path and t.get('local'):
                return i
        raise SystemExit('anchor lost: type %s' % path)

    def ty(self, i):
        return self.types[i]

    def tname(self, i):
        return self.types[i]['n']

    def is_word_vec(self, i):
        t = self.types[i]
        return t['k'] == 'struct' and t.get('def') == 'std::vec::Vec' and self.types[t['args'][0]]['k'] == 'uint'

    def strip_ref(self, i):
        t = self.types[i]
        return t['e'] if t['k'] == 'ref' else i

    def fn_full(self, name):
        return [f for f in self.fns if f.full == name]
