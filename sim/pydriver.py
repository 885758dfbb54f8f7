# The simulated user program of a Python rank: the operations of a scenario through the Python interface.
import sys, gc, types, ctypes, os, re
gc.disable()
import numpy as np
import numpy.ctypeslib
import simhost as sim

OK, STDEXC, BADALLOC, SKIP = 0, 1, 3, 8
OB_ROWS, OB_ALM, OB_VAL, OB_INFO = 2, 3, 4, 7
NS = 6
Real = ctypes.CDLL
loading = [None]          # path of the library copy of the rank whose wrapper is being loaded

class Sim(Real):
    """A library handle whose functions count as library code while they run."""
    def __init__(self, name=None, *a, **k):
        super().__init__(loading[0] if loading[0] else name)
        base = self._FuncPtr
        class Func(base):
            _flags_ = base._flags_
            _restype_ = base._restype_
            def __call__(self, *args, **kw):
                sim.lib(1)
                try:
                    return super().__call__(*args, **kw)
                finally:
                    sim.lib(0)
        self._FuncPtr = Func

# string buffers with room behind them, to see whether anything is written past their end
bufs = []
def create_string_buffer(init, size=None):
    if size is None: size = init if isinstance(init, int) else len(init) + 1
    room = ctypes.c_char * (size + 8192); b = room(); ctypes.memset(b, 0xa5, size + 8192); ctypes.memset(b, 0, size)
    if not isinstance(init, int): ctypes.memmove(b, init, len(init))
    bufs.append((b, size)); return (ctypes.c_char * size).from_buffer(b)
def intact(): return all(b.raw[n:] == b'\xa5' * 8192 for b, n in bufs)

class Comm:
    def __init__(self, h): self.h = ctypes.c_void_p(h)
    def Get_rank(self): return sim.commq(self.h.value or 0, 0)
    def Get_size(self): return sim.commq(self.h.value or 0, 1)
    rank = property(Get_rank); size = property(Get_size)
class FakeMPI(types.ModuleType):
    def __init__(self):
        super().__init__('mpi4py.MPI'); self.Comm = Comm
    @staticmethod
    def _sizeof(x): return ctypes.sizeof(ctypes.c_void_p)
    @staticmethod
    def _addressof(c): return ctypes.addressof(c.h)
    @staticmethod
    def _handleof(c): return c.h.value

wrappers = []
def init(libdir, n):
    pkg = types.ModuleType('mpi4py'); pkg.MPI = FakeMPI(); pkg.__path__ = []
    sys.modules['mpi4py'] = pkg; sys.modules['mpi4py.MPI'] = pkg.MPI
    ctypes.CDLL = Sim; ctypes.create_string_buffer = create_string_buffer
    ctypes.cdll.LoadLibrary = lambda name: Sim(name)
    base = os.path.join(libdir, 'python'); name = 'libconviqt_wrapper'
    sys.path.insert(0, base)
    import importlib
    for r in range(n):
        loading[0] = os.path.join(libdir, 'simlib_%d.so' % r)
        for k in list(sys.modules):
            if k == name or k.startswith(name + '.'): del sys.modules[k]
        m = importlib.import_module(name)
        if not m.available: print('the wrapper says that the library is not available', file=sys.stderr); return False
        wrappers.append(m)
    loading[0] = None
    gc.freeze()
    return True

class Drv:
    def __init__(self, rank):
        self.w = wrappers[rank]; self.b = [None] * NS; self.s = [None] * NS; self.d = [None] * NS; self.c = [None] * NS; self.p = [None] * NS
        self.n = [0] * NS; self.pol = {}; self.held = None
    def guarded(self, o, i, f):
        code = OK; msg = ''
        try: f()
        except MemoryError as e: code = BADALLOC; msg = 'MemoryError'
        except Exception as e: code = STDEXC; msg = str(e)[:190] or repr(e)[:190]
        sim.note(i, code, msg.encode('ascii', 'replace').decode())
        return code
    def vals(self, i, v, tag=OB_VAL, aux=0): sim.obs(i, tag, aux, np.array(v, dtype=np.float64).tobytes())
    def dump(self, i, data, L, M):
        for k, x in enumerate(data):
            v = np.empty(2 + 2 * x.size); v[0] = L; v[1] = M; v[2::2] = x.real; v[3::2] = x.imag
            sim.obs(i, OB_ALM, k, v.tobytes())
    def step(self, i):
        # coefficients handed out are copies: they are looked at after the next operation
        h = self.held; self.held = None
        try: self.do(i)
        finally: self.show(h)
    def show(self, h):
        if not h: return
        i, data, L, M, v = h; self.dump(i, data, L, M)
        for aux, x in v: self.vals(i, [x], OB_INFO, aux)
    def do(self, i):
        kind, a, d, n = sim.op(i); x = a[0]; w = self.w; comm = Comm(sim.comm(i)); code = OK
        if kind == 'read_beam':
            def f():
                self.b[x] = None; self.b[x] = w.Beam(a[2], a[3], bool(a[4]), 'f%d.fits' % a[1], comm); self.pol['b', x] = a[4]
            code = self.guarded(a, i, f)
        elif kind == 'read_sky':
            def f():
                self.s[x] = None; self.s[x] = w.Sky(a[2], bool(a[4]), 'f%d.fits' % a[1], d[0], comm); self.pol['s', x] = a[4]
            code = self.guarded(a, i, f)
        elif kind == 'normalize':
            v = [0.0, 0.0]
            def f(): v[0] = self.b[x].normalize()
            code = self.guarded(a, i, f)
            if code == OK: v[1] = float(self.b[x].normalized())
            self.vals(i, v)
        elif kind == 'remove_monopole': code = self.guarded(a, i, lambda: self.s[x].remove_monopole())
        elif kind == 'remove_dipole': code = self.guarded(a, i, lambda: self.s[x].remove_dipole())
        elif kind == 'new_detector':
            def f():
                name = 'det%d' % a[1] + ('.' + '0' * a[2] if a[2] else ''); self.d[x] = None
                if a[3]: self.d[x] = w.Detector(name, d[0]) if a[1] else w.Detector(epsilon=d[0])
                else: self.d[x] = w.Detector(name) if a[1] else w.Detector()
            code = self.guarded(a, i, f)
        elif kind == 'set_epsilon': code = self.guarded(a, i, lambda: self.d[x].set_epsilon(d[0]))
        elif kind == 'dump_detector':
            v = [0.0, 0.0, 0.0]
            def f():
                del bufs[:]
                v[0] = self.d[x].get_epsilon(); s = self.d[x].get_id()
                if isinstance(s, bytes): s = s.decode()
                v[1] = float(s[3:]) if s else 0.0; v[2] = float(len(s)) if intact() else -1.0
            code = self.guarded(a, i, f); self.vals(i, v)
        elif kind == 'new_convolver':
            def f():
                self.c[x] = None; self.c[x] = w.Convolver(self.s[a[1]], self.b[a[2]], self.d[a[3]], bool(a[4]), a[5], a[6], a[7], a[8], comm)
            code = self.guarded(a, i, f)
            if d[0]: self.s[a[1]] = None; self.b[a[2]] = None; self.d[a[3]] = None     # the program keeps no reference of its own
        elif kind == 'convolve':
            if self.c[x] is None: sim.note(i, SKIP, 'no convolver'); return
            p = a[4]
            if a[3] and self.p[p] is None: sim.note(i, SKIP, 'no pointing'); return
            if not a[3]:
                self.n[p] = n
                try:
                    if n or a[2]:
                        if self.p[p] is None: self.p[p] = w.Pointing(n)
                        else: self.p[p].alloc(n)
                    else: self.p[p] = None; self.p[p] = w.Pointing()
                    if n or a[2]: self.p[p].data()[:] = np.frombuffer(sim.rows(i)).reshape(n, 5)
                except Exception as e:
                    msg = str(e)[:190]; sim.note(i, STDEXC, 'pointing: ' + msg); self.after(a, STDEXC); return
            code = self.guarded(a, i, lambda: self.c[x].convolve(self.p[p], bool(a[1])) if a[1] or i % 2 else self.c[x].convolve(self.p[p]))
            try: q = self.p[p].data() if self.n[p] else np.empty(0)
            except Exception: q = np.empty(0)
            if d[0]: self.p[p] = None     # the program keeps the rows only
            sim.obs(i, OB_ROWS, 0, np.ascontiguousarray(q, dtype=np.float64).tobytes())
        elif kind == 'del_convolver':
            def f(): self.c[x] = None
            code = self.guarded(a, i, f)
        elif kind in ('dump_beam', 'dump_sky'):
            o = (self.b if kind == 'dump_beam' else self.s)[x]
            if a[8] and o is None: return
            try:
                data = o.get_data(); L = o.lmax(); M = o.mmax() if kind == 'dump_beam' else L; v = [(1, L)]
                if kind == 'dump_beam': v += [(2, M), (3, float(o.normalized()))]
                self.held = (i, data, L, M, v)
            except Exception as e: sim.note(i, STDEXC, str(e)[:190])
            return
        elif kind == 'set_data':
            o = (self.b if a[1] else self.s)[x]
            def f():
                L = o.lmax(); M = o.mmax() if a[1] else L
                pol = self.pol['b' if a[1] else 's', x]
                new = [self.shape(np.frombuffer(sim.coef(i, k, L, M), dtype=np.complex128), a[2] // 9 + k) for k in range(3 if pol else 1)]
                if a[2] % 5 == 0:         # another number of coefficients is refused
                    try: o.set_data([np.append(new[0], 1.0)] + new[1:])
                    except Exception: pass
                    else: raise ValueError('too many coefficients were accepted')
                if a[2] % 5 == 1 and new[0].size > 1:
                    try: o.set_data([new[0][1:]] + new[1:])
                    except Exception: pass
                    else: raise ValueError('too few coefficients were accepted')
                o.set_data(tuple(new) if a[2] % 2 else new)
            code = self.guarded(a, i, f)
        elif kind == 'del_all': self.delall(); sim.note(i, OK, '')
        elif kind == 'census': self.vals(i, sim.census()); return
        else: raise RuntimeError('operation %s in a Python rank' % kind)
        self.after(a, code)
    def after(self, a, code):
        if code != OK and a[9] == 1: sim.abort()
    def shape(self, v, how):
        # the same numbers as other kinds of array
        if not v.imag.any(): v = v.real.copy()
        how %= 5
        if how == 0: v = v.astype(np.complex64 if v.dtype.kind == 'c' else np.float32)
        elif how == 1: v = np.repeat(v, 3)[1::3]
        elif how == 2: v = v[::-1].copy()[::-1]
        elif how == 3: v = np.stack([v, v + 1])[0]
        return v
    def delall(self):
        for k in range(NS):
            self.c[k] = None; self.p[k] = None; self.d[k] = None; self.b[k] = None; self.s[k] = None

def run(rank, nops):
    D = Drv(rank)
    for i in range(nops):
        if sim.op(i)[0] in ('none', ''): 
            if not sim.member(i): continue
            sim.begin(i); sim.end(i); continue
        if not sim.member(i): continue
        sim.begin(i); D.step(i); sim.end(i)
    sim.begin(-1); D.delall(); D.show(D.held)
