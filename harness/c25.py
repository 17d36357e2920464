"""C25: save and restore of all data classes that can be saved."""
import os
import random
import shutil
import tempfile
import numpy as np
import core


def norm(v):
    """a comparable form of an array or attribute"""
    if v is None or (isinstance(v, str) and v == ''):
        return ('',)
    if isinstance(v, str):
        return ('s', v.rstrip())
    if isinstance(v, (list, tuple)) or hasattr(v, 'shape') and np.ndim(v) > 0:
        a = np.asarray(v)
        return ('a', a.shape, tuple(norm(float(x)) for x in a.ravel().astype(float)))
    import specula
    v = float(np.float32(v)) if specula.global_precision == 1 else float(v)
    return ('n', '%.14g' % (v + 0.0))


class F:
    """factories: each returns (object, names of what its file must hold)"""
    def __init__(self, rng):
        self.r = rng

    def a(self, *shape):
        g = np.random.default_rng(self.r.randrange(1 << 30))
        v = g.standard_normal(shape) * self.r.choice([1, 1, 1e-9, 1e6])
        if v.size and self.r.random() < .2:
            v.ravel()[self.r.randrange(v.size)] = self.r.choice([0.0, np.nan, np.inf, -np.inf, 1e-30])
        return v

    def ints(self, hi, *shape):
        return np.random.default_rng(self.r.randrange(1 << 30)).integers(0, hi, shape)

    def n(self, a=1, b=5):
        return self.r.randint(a, b)

    def tag(self):
        return self.r.choice(['', 'tag', 'scao_pup_10x10', 'a' * 80, "it's"])

    def BaseValue(self):
        from specula.base_value import BaseValue
        v = self.r.choice([lambda: 2.5, lambda: 3, lambda: 1 / 3, lambda: float('nan'), lambda: float('-inf'), lambda: 1e-300, lambda: None,
                           lambda: self.a(self.n()), lambda: self.a(self.n(), self.n()), lambda: self.a(2, 1, 3), lambda: [1, 2], lambda: self.a(0), lambda: np.array(self.r.choice([2.5, float('nan')]))])()
        return BaseValue(value=v), ['value']

    def ElectricField(self):
        from specula.data_objects.electric_field import ElectricField
        o = ElectricField(self.n(), self.n(), self.r.choice([.1, 1 / 3, 2]), S0=self.r.choice([0.0, 1 / 7, 1e12]))
        o.field[:] = self.a(*o.field.shape)
        return o, ['field', 'pixel_pitch', 'S0']

    def Layer(self):
        from specula.data_objects.layer import Layer
        o = Layer(self.n(), self.n(), self.r.choice([.1, 1 / 3]), self.r.choice([0, 4500.5]), (self.r.choice([0, 1.5]), self.r.choice([0, -2.25])),
                  self.r.choice([0.0, 30.5]), self.r.choice([1.0, 1.01]))
        o.field[:] = self.a(*o.field.shape)
        return o, ['field', 'pixel_pitch', 'height', 'shiftXYinPixel', 'rotInDeg', 'magnification']

    def Pupilstop(self):
        from specula.data_objects.pupilstop import Pupilstop
        from libobjs import sp
        n = self.r.choice([4, 7, 8])
        kw = dict(input_mask=self.a(n, n)) if self.r.random() < .5 else dict(mask_diam=self.r.choice([1.0, .8]), obs_diam=self.r.choice([None, .3]))
        o = Pupilstop(sp(pixel_pupil=n, pixel_pitch=self.r.choice([.1, 1 / 3])), shiftXYinPixel=(self.r.choice([0, 1.5]), self.r.choice([0, -2.25])),
                      rotInDeg=self.r.choice([0.0, 30.5]), magnification=self.r.choice([1.0, 1.01]), **kw)
        return o, ['A', 'pixel_pitch', 'pixel_pupil', 'shiftXYinPixel', 'rotInDeg', 'magnification']

    def Intensity(self):
        from specula.data_objects.intensity import Intensity
        o = Intensity(self.n(), self.n())
        o.i[:] = self.a(*o.i.shape)
        return o, ['i']

    def Pixels(self):
        from specula.data_objects.pixels import Pixels
        o = Pixels(self.n(), self.n(), bits=self.r.choice([8, 10, 16, 24, 32, 64]), signed=self.r.choice([0, 1]))
        o.pixels[:] = np.round(self.a(*o.pixels.shape))
        return o, ['pixels', 'bpp', 'bytespp', 'signed', '*type']

    def Slopes(self):
        from specula.data_objects.slopes import Slopes
        n = self.n(1, 4) * 2
        o = Slopes(slopes=self.a(n), interleave=self.r.random() < .5) if self.r.random() < .5 else Slopes(length=n, interleave=self.r.random() < .5)
        o.slopes[:] = self.a(n)
        o.pupdata_tag = self.r.choice([None, self.tag()])
        o.subapdata_tag = self.r.choice([None, self.tag()])
        return o, ['slopes', 'interleave', 'pupdata_tag', 'subapdata_tag', 'indices_x', 'indices_y']

    def Intmat(self):
        from specula.data_objects.intmat import Intmat
        s, m = self.n(), self.n()
        kw = {}
        if self.r.random() < .5:
            kw['slope_mm'] = self.a(m, 2)
        if self.r.random() < .5:
            kw['slope_rms'] = self.a(m)
        if self.r.random() < .7:
            kw.update(pupdata_tag=self.tag(), subapdata_tag=self.tag(), norm_factor=self.r.choice([0.0, 2.5, 1 / 3]))
        return Intmat(self.a(s, m), **kw), ['intmat', 'slope_mm', 'slope_rms', 'pupdata_tag', 'subapdata_tag', 'norm_factor', 'nmodes', 'nslopes']

    def Recmat(self):
        from specula.data_objects.recmat import Recmat
        o = Recmat(self.a(self.n(), self.n()), norm_factor=self.r.choice([0, 2.5, 1 / 3]))
        if self.r.random() < .5:
            o.set_modes2recLayer(self.ints(2, self.n(1, 3), o.nmodes))
        return o, ['recmat', 'norm_factor', 'nmodes']       # modes2recLayer: see layers()

    def M2C(self):
        from specula.data_objects.m2c import M2C
        return M2C(self.a(self.n(), self.n()), nmodes=self.r.choice([None, 1])), ['m2c', 'nmodes']

    def IFunc(self):
        from specula.data_objects.ifunc import IFunc
        if self.r.random() < .3:
            o = IFunc(type_str=self.r.choice(['zernike', 'zern']), npixels=self.r.choice([6, 8]), nmodes=self.n(2, 4), obsratio=self.r.choice([0, .2]),
                      start_mode=self.r.choice([None, 1]))
        else:
            m = self.mask()
            o = IFunc(ifunc=self.a(self.n(2, 4), int((m > 0).sum())), mask=m)
        return o, ['influence_function', '_mask_inf_func', '*idx']

    def mask(self):
        m = self.ints(2, self.n(2, 4), self.n(2, 4))
        m[0, 0] = 1
        return m.astype(self.r.choice([float, float, int, bool, np.uint8]))

    def IFuncInv(self):
        from specula.data_objects.ifunc_inv import IFuncInv
        m = self.mask()
        return IFuncInv(self.a(int((m > 0).sum()), self.n(1, 4)), m), ['ifunc_inv', 'mask_inf_func', '*idx']

    def PupData(self):
        from specula.data_objects.pupdata import PupData
        o = PupData(ind_pup=self.ints(99, self.n(), 4), radius=self.a(4), cx=self.a(4), cy=self.a(4), framesize=[self.n(), self.n(6, 9)])
        return o, ['ind_pup', 'radius', 'cx', 'cy', 'framesize']

    def SubapData(self):
        from specula.data_objects.subap_data import SubapData
        n = self.n()
        o = SubapData(self.ints(99, n, self.n(1, 4) ** 2), self.ints(9, n), self.n(), self.n(6, 9), energy_th=self.r.choice([0, .5, 1 / 3]))
        return o, ['idxs', 'display_map', 'nx', 'ny', 'energy_th', 'n_subaps', 'np_sub']

    def Source(self):
        from specula.data_objects.source import Source
        kw = {}
        if self.r.random() < .6:
            kw['height'] = self.r.choice([90e3, 4500.25, float('inf')])
        if self.r.random() < .5:
            kw.update(band=self.r.choice(['', 'R', 'my band']), zero_point=self.r.choice([0, 1.5e9, 1 / 3]), error_coord=(self.r.choice([0., .5]), -1.))
        o = Source([self.r.choice([0, 15.5, 1 / 3]), self.r.choice([0, 45])], self.r.choice([0, 8.5, -1]), self.r.choice([500, 589.3]), **kw)
        return o, ['polar_coordinates', 'orig_polar_coordinates', 'magnitude', 'wavelengthInNm', 'height', 'band', 'zero_point', 'error_coord']

    def LaserLaunchTelescope(self):
        from specula.data_objects.laser_launch_telescope import LaserLaunchTelescope
        from libobjs import sp
        o = LaserLaunchTelescope(sp(zenithAngleInDeg=self.r.choice([0.0, 30.0])), spot_size=self.r.choice([0.0, 1.5]), tel_position=[1.5, -2., self.r.choice([0., 3.])],
                                 beacon_focus=self.r.choice([90e3, 80e3]), beacon_tt=[self.r.choice([0., .25]), -.5])
        return o, ['spot_size', 'tel_pos', 'beacon_focus', 'beacon_tt']

    def Lenslet(self):
        from specula.data_objects.lenslet import Lenslet
        return Lenslet(self.n()), ['n_lenses', 'dimx', 'dimy', '*lenses']

    def TimeHistory(self):
        from specula.data_objects.time_history import TimeHistory
        return TimeHistory(self.a(*self.r.choice([(self.n(),), (self.n(), 2)]))), ['time_history']

    def SpatioTempArray(self):
        from specula.data_objects.spatio_temp_array import SpatioTempArray
        s = self.r.choice([(3,), (2, 3), (4, 3, 3), (3, 2, 1, 3)])
        return SpatioTempArray(self.a(*s), self.a(3), time_axis=self.r.choice([-1, 0]) if s[0] == 3 else -1), ['array', 'time_vector']

    def IirFilterData(self):
        from specula.data_objects.iir_filter_data import IirFilterData
        k, n = self.n(1, 3), self.n(1, 3)
        num, den = np.zeros((k, n)), np.zeros((k, n))
        on, od = [], []
        for i in range(k):
            on.append(self.n(1, n))
            od.append(self.n(1, n))
            num[i, :on[-1]] = 1 + np.abs(np.nan_to_num(self.a(on[-1]), posinf=1, neginf=1))
            den[i, :od[-1]] = 1 + np.abs(np.nan_to_num(self.a(od[-1]), posinf=1, neginf=1))
        o = IirFilterData(on, od, num, den, n_modes=self.r.choice([None, [self.n(1, 3) for _ in range(k)]]))
        return o, ['ordnum', 'ordden', 'num', 'den', 'gain', 'nfilter']

    def SsrFilterData(self):
        from specula.data_objects.ssr_filter_data import SsrFilterData
        if self.r.random() < .5:
            s, f = self.n(1, 3), self.n(1, 3)
            o = SsrFilterData(self.a(s, s), self.a(s, f), self.a(f, s), self.a(f, f))
        else:
            k = self.n(1, 3)
            v = lambda: list(np.nan_to_num(self.a(k), posinf=1, neginf=1))
            o = SsrFilterData(v(), v(), v(), v(), n_modes=self.r.choice([None, [self.n(1, 2) for _ in range(k)]]))
        return o, ['A', 'B', 'C', 'D', 'nfilter', 'total_states']

    def kernels(self, shape):
        """kernels whose sum is exactly one (kernels are normalised on loading)"""
        k = self.ints(32, *shape)
        k[:, 0, 0] = 2048 - k[:, 1:, :].sum(axis=(1, 2)) - k[:, 0, 1:].sum(axis=1)
        return k / 2048

    def ConvolutionKernel(self):
        from specula.data_objects.convolution_kernel import ConvolutionKernel
        n = self.n(2, 3)
        o = ConvolutionKernel(n, n, self.r.choice([.1, 1 / 3]), 8.0, self.r.choice([4, 6]), launcher_size=self.r.choice([.5, 1.5]), seeing=.8,
                              oversampling=self.r.choice([1, 2]), positive_shift_tt=self.r.random() < .5)
        o.zlayer, o.zprofile = [90e3], [1.0]
        o.build()
        o.set_value(self.kernels(o.real_kernels.shape))
        return o, ['real_kernels', 'pxscale', 'dimension', 'oversampling', 'positive_shift_tt', 'spot_size', 'dimx', 'dimy']

    def GaussianConvolutionKernel(self):
        from specula.data_objects.gaussian_convolution_kernel import GaussianConvolutionKernel
        n = self.n(2, 3)
        o = GaussianConvolutionKernel(n, n, self.r.choice([.1, 1 / 3]), self.r.choice([4, 6]), self.r.choice([.5, 1.5]), 8.0,
                                      oversampling=self.r.choice([1, 2]), positive_shift_tt=self.r.random() < .5)
        o.set_value(self.kernels(o.real_kernels.shape))
        return o, ['real_kernels', 'pxscale', 'dimension', 'oversampling', 'positive_shift_tt', 'spot_size', 'dimx', 'dimy']


CLASSES = [k for k in vars(F) if k[0].isupper()]
# what a call without the overwrite argument means; the classes not listed have no such argument
DEFAULT = dict({k: 'off' for k in ('BaseValue', 'Recmat', 'M2C', 'IFunc', 'IFuncInv', 'PupData', 'SubapData', 'Source', 'LaserLaunchTelescope', 'Lenslet')},
               **{k: 'on' for k in ('Intmat', 'ElectricField', 'Layer', 'Pupilstop', 'Intensity', 'Pixels', 'Slopes')})


def state(o, names):
    out = []
    for n in names:
        if n == '*type':
            out.append(('s', str(np.dtype(o.type))))
        elif n == '*proj_list':
            out.append(tuple(norm(p) for p in o.proj_list))
        elif n == '*lenses':
            out.append(norm(np.array([[o.get(i, j) for j in range(o.n_lenses)] for i in range(o.n_lenses)], dtype=float)))
        elif n == '*idx':
            out.append(tuple(norm(x) for x in (o._idx_inf_func if hasattr(o, '_idx_inf_func') else o.idx_inf_func)))
        else:
            out.append(norm(getattr(o, n)))
    return tuple(out)


def one(tid, rng, hist=None):
    cls = CLASSES[rng.randrange(len(CLASSES))]
    f = F(rng)
    ids = {}
    num = lambda x: ids.setdefault(x, len(ids) + 1)
    tmp = tempfile.mkdtemp(prefix='c25')
    d = dict(id=tid, cls=cls)
    ev = []
    notes = []
    try:
        with core.quiet():
            objs = [getattr(f, cls)() for _ in range(2)]
            names = objs[0][1]
            objs = [o for o, _ in objs]
            path = lambda p: os.path.join(tmp, f'file{p}.fits')
            cont = lambda: [num(('o',) + state(o, names)) for o in objs]
            files = lambda: [num(('f', open(path(p), 'rb').read())) if os.path.exists(path(p)) else 0 for p in (1, 2, 3)]
            d['objs'] = cont()
            if hist is None:
                hist = []
                for _ in range(rng.randint(3, 9)):
                    u = rng.random()
                    hist.append(dict(op='save' if u < .5 else 'restore' if u < .85 else 'change', o=rng.randint(1, 2), p=rng.randint(1, 3), ow=rng.choice(['on', 'off', 'def'])))
            for h in hist:
                e = dict(op=h['op'], o=h['o'], p=h['p'])
                if h['op'] == 'change':
                    objs[h['o'] - 1] = getattr(f, cls)()[0]
                elif h['op'] == 'save':
                    if cls not in DEFAULT:
                        kw, e['ow'] = {}, 'class'
                    elif h['ow'] == 'def':
                        kw, e['ow'] = {}, DEFAULT[cls]
                    else:
                        kw, e['ow'] = dict(overwrite=h['ow'] == 'on'), h['ow']
                    try:
                        objs[h['o'] - 1].save(path(h['p']), **kw)
                        e['res'] = 'ok'
                    except Exception as x:
                        e['res'] = 'refused' if isinstance(x, OSError) else 'failed'
                        notes.append(f'{type(x).__name__}: {x}'[:120])
                else:
                    if not os.path.exists(path(h['p'])):
                        continue
                    try:
                        kw = dict(return_fft=rng.random() < .5) if 'Kernel' in cls else {}
                        r = type(objs[0]).restore(path(h['p']), **kw)
                        e['res'], e['got'] = 'ok', num(('o',) + state(r, names))
                        if type(r) is not type(objs[0]):
                            e['got'] = 0
                        if rng.random() < .5:        # a restored object is independent of the file and of other objects
                            for v in vars(r).values():
                                if isinstance(v, np.ndarray) and v.flags.writeable and v.dtype.kind == 'f':
                                    v[...] = -7
                    except Exception as x:
                        e['res'], e['got'] = 'failed', 0
                        notes.append(f'{type(x).__name__}: {x}'[:120])
                e['now'], e['bytes'] = cont(), files()
                ev.append(e)
    except Exception as x:
        core.blame(x)
        raise
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if not ev:
        ev.append(dict(op='change', o=1, p=1, now=d['objs']))
    d['ev'] = ev
    d['replay'] = dict(notes=notes)
    return d


def gen(seed, count, prefix):
    rng = random.Random(seed)
    return [one(f'{prefix}{k}', rng) for k in range(count)]


def replay(seed, behs, prefix):
    rng = random.Random(seed)
    return [one(f'{prefix}{k}', rng, b) for k, b in enumerate(behs)]


def layers():
    """modes2recLayer of a reconstruction matrix, on its own"""
    from specula.data_objects.recmat import Recmat
    tmp = tempfile.mkdtemp(prefix='c25')
    try:
        with core.quiet():
            o = Recmat(np.arange(6.).reshape(3, 2))
            o.set_modes2recLayer(np.array([[1., 0, 1], [0, 1, 0]]))
            ids = {}
            num = lambda x: ids.setdefault(x, len(ids) + 1)
            c = num(norm(o.modes2recLayer))
            o.save(tmp + '/f.fits')
            ev = [dict(op='save', o=1, p=1, ow='off', res='ok', now=[c], bytes=[1, 0, 0])]
            r = Recmat.restore(tmp + '/f.fits')
            ev.append(dict(op='restore', o=1, p=1, res='ok', got=num(norm(r.modes2recLayer)), now=[num(norm(o.modes2recLayer))], bytes=[1, 0, 0]))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return [dict(id='recmat-layers', key='recmat-modes2reclayer', cls='Recmat', objs=[c], ev=ev)]


def check(ctx):
    beh = ctx.model_check('MCArchive')
    ctx.rng.shuffle(beh)
    beh = beh[:ctx.n(1000, 10000)]
    traces = [t for r in core.jobs('c25', 'replay', [[ctx.seed + k, beh[k::6], f'm{k}.'] for k in range(6)]) for t in r]
    traces += core.spread(ctx, 'c25', 'gen', ctx.n(1600, 25000), prefix='r')
    traces += core.spread(ctx, 'c25', 'gen', ctx.n(400, 5000), parts=2, precision=1, prefix='s')
    traces += core.jobs('c25', 'layers', [[]])[0]
    for c in CLASSES:
        ctx.need(sum(e['op'] == 'restore' for t in traces if t['cls'] == c for e in t['ev']) > 15, f'restores of {c}')
    ctx.validate('ArchiveTrace', traces)
    ctx.assumptions.append('what a file must hold: the arrays and the attributes recorded in its header or extensions')
