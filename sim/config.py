"""Configurations of the program under test and how to run one."""
import io
import os

import numpy as np

from . import proc

KEYS = ('Fa', 'Fb', 'DFb', 'Sa', 'centres', 'deltax',
        'force_on_wall_due_to_dumbbells', 'sphere_rotations')
POS = ('centres', 'deltax', 'sphere_rotations')
FRC = ('Fa', 'Fb', 'DFb', 'Sa', 'force_on_wall_due_to_dumbbells')

DEFAULTS = dict(view_graphics=False, email_on_completion=False,
                invert_m_every=1, timestepping_scheme='euler',
                start_saving_after_first_n_timesteps=0,
                save_positions_every_n_timesteps=1,
                save_forces_every_n_timesteps=1,
                save_forces_and_positions_to_temp_file_as_well=True,
                save_to_temp_file_every_n_timesteps=120,
                explosion_protection=False, fully_2d_problem=False,
                how_far_to_reproduce_gridpoints=1)

SHORT = {'every': 'save_positions_every_n_timesteps',
         'fevery': 'save_forces_every_n_timesteps',
         'start': 'start_saving_after_first_n_timesteps',
         'temp': 'save_to_temp_file_every_n_timesteps',
         'scheme': 'timestepping_scheme',
         'minv': 'invert_m_every',
         'boom': 'explosion_protection',
         'flat': 'fully_2d_problem',
         'email': 'email_on_completion',
         'view': 'view_graphics',
         'backup': 'save_forces_and_positions_to_temp_file_as_well'}


def make(**kw):
    """A configuration with defaults.  Keys: setup, input, dt (text), frames,
    form, particles, and the settings in SHORT, extra (other settings)."""
    c = dict(setup=2, input=1, dt='0.1', frames=6, form='fte', every=1,
             fevery=1, start=0, temp=120, scheme='euler', minv=1, boom=False,
             flat=False, email=False, view=False, backup=True, particles=None,
             extra={}, desc=None)
    c.update(kw)
    return c


def npz(arrays):
    b = io.BytesIO()
    np.savez_compressed(b, **arrays)
    return b.getvalue()


def particle_file(particles):
    """The earlier output file that setup 8 copies its particles from."""
    s = np.array(particles.get('spheres', []), float).reshape(-1, 3)
    d = np.array(particles.get('dumbbells', []), float).reshape(-1, 6)
    ns, nd = len(s), len(d)
    centres = np.concatenate([s, d[:, :3]])
    rot = np.zeros((ns, 2, 3))
    rot[:, 0] = s + [1, 0, 0]
    rot[:, 1] = s + [0, 0, 1]
    return npz(dict(Fa=np.zeros((1, ns, 3)), Fb=np.zeros((1, nd, 3)),
                    DFb=np.zeros((1, nd, 3)), Sa=np.zeros((1, ns, 3, 3)),
                    centres=centres[None], deltax=d[None, :, 3:],
                    force_on_wall_due_to_dumbbells=np.zeros(1),
                    sphere_rotations=rot[None]))


def num_particles(c):
    if c['setup'] == 8:
        return (len(c['particles'].get('spheres', [])),
                len(c['particles'].get('dumbbells', [])))
    if c['setup'] < 0:
        return 2, 0
    return {1: (15, 0), 2: (3, 0), 3: (8, 0), 4: (2, 2), 5: (41, 0)}[c['setup']]


def sphere_sizes(c):
    """Radii of the spheres."""
    if c['setup'] < 0:
        # the two-sphere setups
        return [(1, 1), (1, 1), (1, .1), (1, .1), (.1, 1), (.1, 1), (.1, .1), (.1, .1)][-c['setup'] - 1]
    return (1,) * num_particles(c)[0]


def files_for(c):
    return {'output/FILENAME.npz': particle_file(c['particles'])} \
        if c['setup'] == 8 else {}


def spec_for(c, **kw):
    st = dict(DEFAULTS)
    for k, name in SHORT.items():
        st[name] = c[k]
    st.update(c.get('extra') or {})
    if 'viewbox_bottomleft_topright' in st:
        st['viewbox_bottomleft_topright'] = np.array(st['viewbox_bottomleft_topright'])
    s = dict(script=os.path.join(proc.SD, 'run_simulation.py'), settings=st)
    if c.get('desc') is None:
        s['argv'] = [c['setup'], c['input'], c['dt'], c['frames'], c['form']]
    else:
        # started without arguments: everything comes from the settings file
        s['argv'] = []
        s['input'] = [c['desc']]
        st.update(setup_number=c['setup'], input_number=c['input'],
                  timestep=float(c['dt']), num_frames=c['frames'],
                  input_form=c['form'])
    s.update(kw)
    return s


def code():
    return proc.code_for(os.path.join(proc.SD, 'run_simulation.py'))


def results_in(files, skip=('output/FILENAME.npz',)):
    return sorted(p for p in files if p.startswith('output/') and p.endswith('.npz')
                  and not p.endswith('_TEMP.npz') and p not in skip)


def backups_in(files):
    return sorted(p for p in files if p.startswith('output/')
                  and p.endswith('_TEMP.npz'))
