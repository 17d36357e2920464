"""Library processing objects built directly, with the data objects that feed them."""
import numpy as np


def sp(dt=0.001, total=1.0, **kw):
    from specula.data_objects.simul_params import SimulParams
    return SimulParams(time_step=dt, total_time=total, **kw)


def iname(o):
    return o


def factories():
    """name -> function returning (processing object, {input: [data objects]})"""
    from probes.typed_src import make
    F = {}

    def reg(name):
        def deco(f):
            F[name] = f
            return f
        return deco

    def add(name, build, **ins):
        def f():
            o = build()
            src = {}
            for i, kinds in ins.items():
                ks = kinds if isinstance(kinds, list) else [kinds]
                src[i] = [make(*k) for k in ks]
                if isinstance(kinds, list):
                    o.inputs[i].set(src[i])
                else:
                    o.inputs[i].set(src[i][0])
            return o, src
        F[name] = f

    def imp(mod, cls):
        import importlib
        return getattr(importlib.import_module('specula.processing_objects.' + mod), cls)

    v4 = ('value', 4)
    add('Integrator', lambda: imp('integrator', 'Integrator')(sp(), [0.5] * 4, delay=1), delta_comm=v4)
    add('IntegratorGainMod', lambda: imp('integrator', 'Integrator')(sp(), [0.5] * 4, delay=1.5), delta_comm=v4, gain_mod=v4)
    add('DynamicIntegrator', lambda: imp('dynamic_integrator', 'DynamicIntegrator')(sp(), [0.5], n_modes=[4], delay=2),
        delta_comm=v4, reset=('value', 1))
    add('LowPassFilter', lambda: imp('low_pass_filter', 'LowPassFilter')(sp(), [50.] * 4, n_ord=1), delta_comm=v4)
    add('BaseSlicer', lambda: imp('base_slicer', 'BaseSlicer')(slice_args=[1, 3]), in_value=v4)
    add('BaseInserter', lambda: imp('base_inserter', 'BaseInserter')(6, indices=[[0, 1], [4, 5]]), in_value=v4)
    add('BaseOperation', lambda: imp('base_operation', 'BaseOperation')(sum=True), in_value1=v4, in_value2=v4)
    add('BaseOperationConst', lambda: imp('base_operation', 'BaseOperation')(constant_mul=2.0), in_value1=v4)
    add('WindowedIntegration', lambda: imp('windowed_integration', 'WindowedIntegration')(sp(), 4, 0.002), input=v4)
    add('WaveGenerator', lambda: imp('wave_generator', 'WaveGenerator')(amp=2.0, freq=10.0))
    add('RandomGenerator', lambda: imp('random_generator', 'RandomGenerator')(seed=4, output_size=3))
    add('Modalrec', lambda: imp('modalrec', 'Modalrec')(nmodes=3, recmat=recmat(3, 4)), in_slopes=('slopes', 4))
    add('ModalrecList', lambda: imp('modalrec', 'Modalrec')(nmodes=3, recmat=recmat(3, 8)),
        in_slopes_list=[('slopes', 4), ('slopes', 4)])
    add('MVM', lambda: imp('mvm', 'MVM')(recmat(3, 4)), in_vector=v4)
    add('CCD', lambda: imp('ccd', 'CCD')(sp(), [4, 4], 0.001, 300.0), in_i=('intensity', 4))
    add('DM', lambda: dm(imp('dm', 'DM')), in_command=('value', 3))
    add('DataBuffer', lambda: databuffer(imp('data_buffer', 'DataBuffer')), x=v4)
    add('ElectricFieldCombinator', lambda: imp('electric_field_combinator', 'ElectricFieldCombinator')(),
        in_ef1=('ef', 4), in_ef2=('ef', 4))
    add('ElectricFieldReflection', lambda: imp('electric_field_reflection', 'ElectricFieldReflection')(), in_ef=('ef', 4))
    add('DataPrint', lambda: imp('data_print', 'DataPrint')(print_dt=0.001), in_value=v4)
    return F


def recmat(r, c, seed=0):
    from specula.data_objects.recmat import Recmat
    a = np.array([[((i * 7 + j * 3 + seed) % 5) - 2 for j in range(c)] for i in range(r)], dtype=float)
    return Recmat(a)


def intmat(r, c, seed=0):
    from specula.data_objects.intmat import Intmat
    a = np.array([[((i * 5 + j * 2 + seed) % 7) - 3 for j in range(c)] for i in range(r)], dtype=float)
    return Intmat(intmat=a)


def dm(DM):
    p = sp(pixel_pupil=8, pixel_pitch=0.5)
    return DM(p, height=0, type_str='zernike', nmodes=3, npixels=8, obsratio=0)


def databuffer(DB):
    from specula.connections import InputValue
    from specula.base_value import BaseValue
    d = DB(buffer_size=3)
    d.inputs['x'] = InputValue(type=BaseValue)
    return d
