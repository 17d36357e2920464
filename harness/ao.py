"""A small closed-loop adaptive optics system (16 pixel pupil, 4x4 Shack-Hartmann), as parameters for Simul."""
import os


def calibration(root, seed):
    """Calibration files the parameters refer to.  Needs an initialised specula."""
    import numpy as np
    import core
    from specula.calib_manager import CalibManager
    from specula.data_objects.subap_data import SubapData
    from specula.data_objects.recmat import Recmat
    with core.quiet():
        cm = CalibManager(root)
        rng = np.random.RandomState(seed)
        idx = np.arange(256).reshape(16, 16)
        cells = [(r, c) for r in range(4) for c in range(4) if (r in (1, 2) or c in (1, 2))]
        idxs = np.array([idx[4 * r:4 * r + 4, 4 * c:4 * c + 4].T.flatten() for r, c in cells])
        for kind, name, obj in (
                ('SubapData', 'sub', SubapData(idxs, np.array([4 * r + c for r, c in cells]), 4, 4)),
                ('Recmat', 'rec', Recmat(rng.randint(-8, 9, (6, 2 * len(cells))) / 4.0))):
            f = cm.filename(kind, name)
            os.makedirs(os.path.dirname(f), exist_ok=True)
            obj.save(f, overwrite=True)


def blocks(rng, root, sensor='sh', noise=True, dms=1, infinite=False, combine=False):
    """Object blocks of one system; rng chooses among variants."""
    b = {}
    b['pupilstop'] = {'class': 'Pupilstop', 'simul_params_ref': 'main'}
    b['star'] = {'class': 'Source', 'polar_coordinates': [0.0, 0.0], 'magnitude': 5, 'wavelengthInNm': 750}
    b['far'] = {'class': 'Source', 'polar_coordinates': [rng.choice([0.0, 10.0]), 90.0], 'magnitude': 7, 'wavelengthInNm': 750}
    b['seeing'] = {'class': 'WaveGenerator', 'constant': 0.8, 'outputs': ['output']}
    b['wspeed'] = {'class': 'WaveGenerator', 'constant': [20.0, 5.0], 'outputs': ['output']}
    b['wdir'] = {'class': 'WaveGenerator', 'constant': [0.0, 90.0], 'outputs': ['output']}
    b['atmo'] = {'class': 'AtmoInfiniteEvolution' if infinite else 'AtmoEvolution', 'simul_params_ref': 'main', 'L0': 20.0,
                 'heights': [0.0, 4000.0], 'Cn2': [0.6, 0.4], 'fov': 40.0, 'seed': 3,
                 'inputs': {'seeing': 'seeing.output', 'wind_speed': 'wspeed.output', 'wind_direction': 'wdir.output'},
                 'outputs': ['layer_list']}
    if not infinite:
        b['atmo'].update(pixel_phasescreens=64, data_dir=os.path.join(root, 'ps'))
    b['prop'] = {'class': 'AtmoPropagation', 'simul_params_ref': 'main', 'source_dict_ref': ['star', 'far'],
                 'inputs': {'atmo_layer_list': ['atmo.layer_list'],
                            'common_layer_list': ['pupilstop'] + [f'dm{k}.out_layer:-1' for k in range(dms)]},
                 'outputs': ['out_star_ef', 'out_far_ef']}
    ef = 'prop.out_star_ef'
    if combine:
        b['comb'] = {'class': 'ElectricFieldCombinator', 'inputs': {'in_ef1': 'prop.out_star_ef', 'in_ef2': 'prop.out_far_ef'},
                     'outputs': ['out_ef']}
        ef = 'comb.out_ef'
    b['sh'] = {'class': 'SH', 'subap_wanted_fov': 2.4, 'sensor_pxscale': 0.6, 'subap_npx': 4, 'subap_on_diameter': 4,
               'wavelengthInNm': 750, 'inputs': {'in_ef': ef}, 'outputs': ['out_i']}
    b['ccd'] = {'class': 'CCD', 'simul_params_ref': 'main', 'size': [16, 16], 'dt': rng.choice([0.001, 0.002]), 'bandw': 300,
                'photon_noise': noise, 'readout_noise': noise, 'readout_level': 1.0, 'quantum_eff': 0.32,
                'inputs': {'in_i': 'sh.out_i'}, 'outputs': ['out_pixels']}
    b['slopec'] = {'class': 'ShSlopec', 'subapdata_object': 'sub', 'inputs': {'in_pixels': 'ccd.out_pixels'},
                   'outputs': ['out_slopes']}
    if rng.random() < .4:
        b['slopec']['weight_int_pixel_dt'] = 0.002
    b['rec'] = {'class': 'Modalrec', 'recmat_object': 'rec', 'inputs': {'in_slopes': 'slopec.out_slopes'}, 'outputs': ['out_modes']}
    for k in range(dms):
        b[f'ctrl{k}'] = {'class': 'Integrator', 'simul_params_ref': 'main', 'delay': rng.choice([0, 1, 2]), 'int_gain': [0.4] * 6,
                         'inputs': {'delta_comm': 'rec.out_modes'}, 'outputs': ['out_comm']}
        b[f'dm{k}'] = {'class': 'DM', 'simul_params_ref': 'main', 'type_str': 'zernike', 'nmodes': 6, 'obsratio': 0.0, 'height': 0,
                       'inputs': {'in_command': f'ctrl{k}.out_comm'}, 'outputs': ['out_layer']}
    b['psf'] = {'class': 'PSF', 'simul_params_ref': 'main', 'wavelengthInNm': 1650, 'nd': 2, 'start_time': 0.001,
                'inputs': {'in_ef': 'prop.out_far_ef'}, 'outputs': ['out_psf', 'out_sr', 'out_int_psf']}
    return b


def outputs(b):
    return [(n, o) for n, v in b.items() for o in v.get('outputs', [])]


def params(root, b, steps, order=None):
    """All parameters, with probes that read every output in the same and in the previous step."""
    p = {'main': {'class': 'SimulParams', 'root_dir': root, 'pixel_pupil': 16, 'pixel_pitch': 0.5,
                  'total_time': steps * 0.001, 'time_step': 0.001, 'add_modules': ['probes']}}
    b = dict(b)
    for u, d in ((90, ''), (91, ':-1')):
        ins, conn = [], {}
        for n, o in outputs(b):
            nm = f'i{n}{o}'.replace('_', '')
            lst = o == 'layer_list'
            ins.append([nm, 'l' if lst else 'v', 0])
            conn[nm] = [f'{n}.{o}{d}'] if lst else f'{n}.{o}{d}'
        b[f'probe{u}'] = {'class': 'FlowProbe', 'uid': u, 'ins': ins, 'anytype': True, 'outputs': ['o0'], 'inputs': conn}
    names = list(b)
    if order:
        order.shuffle(names)
    p.update({n: b[n] for n in names})
    return p
