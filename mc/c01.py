"""C01 ply stiffness and its rotation: every (material, angle) of a lattice, walked by turning
the ply in fixed increments; oracle: inverse compliance and tensor rotation."""
import numpy as np

from composipy import LaminateProperty

from mc import ref
from mc.core import Fail
from mc.real import ALL_MATS, MATS, TOL, mat, need

ID = 'C01'
STEP = {'quick': 0.5, 'thorough': 0.0625}
RANGE = (-360, 720)
ODD = [0.1, 1e-3, 22.5, 33.333333, 89.999, 1e-9, 1234.5, -777.25]
DECIMALS = [3.1234567891, 0.0371828183] # steps of angles with many decimals


def BOUNDS(tier):
    return {'materials': ALL_MATS, 'angle_range': RANGE, 'angle_step': STEP[tier], 'extra_angles': ODD, 'steps_with_many_decimals': DECIMALS}


def shards(tier):
    return [{'mat': k, 'step': STEP[tier]} for k in ALL_MATS]


def material_case(k):
    m = MATS[k]
    r = mat(m)
    sc = np.abs(m.Q0()).max()
    need(ref.close(r.Q_0, m.Q0(), sc, TOL), 'stiffness of %s in its own axes' % k)
    need(ref.close(r.Q_0, m.Q0(), sc, TOL), 'second read of the stiffness of %s' % k)
    need(ref.close(r.Invariants(), ref.invariants(m), sc, TOL), 'invariants of %s' % k)
    need(ref.close(r.thickness, m.t, 1, 0), 'thickness')
    if not m.iso:
        need(ref.close(r.v21 * r.e1, r.v12 * r.e2, m.e2, TOL), 'reciprocity of the Poisson ratios')


def angle_case(k, theta, r):
    m = MATS[k]
    lam = LaminateProperty([theta], r)
    sc = np.abs(m.Q0()).max()
    want = ref.Qbar(m, theta)
    need(ref.close(lam.Q_layup[0], want, sc, TOL), 'stiffness of a ply at %r in plate axes' % theta)
    need(ref.close(lam.A, m.t * want, sc * m.t, TOL), 'A of one ply at %r' % theta)
    need(ref.close(lam.D, m.t ** 3 / 12 * want, sc * m.t ** 3, TOL), 'D of one ply at %r' % theta)
    T, Te = lam.T_layup[0]
    for v in np.eye(3):
        need(ref.close(np.asarray(T) @ v, ref.stress_to_material(theta, v), 1, TOL), 'stress transformation at %r' % theta)
        need(ref.close(np.asarray(Te) @ v, ref.strain_to_material(theta, v), 1, TOL), 'strain transformation at %r' % theta)


def explore(shard, rec):
    k = shard['mat']
    if 'angle' in shard:
        rec.run(shard, lambda: angle_case(k, shard['angle'], mat(MATS[k])))
        return
    rec.run({'mat': k}, lambda: material_case(k))
    rec.state()
    r = mat(MATS[k])
    n = int((RANGE[1] - RANGE[0]) / shard['step'])
    angles = [RANGE[0] + i * shard['step'] for i in range(n + 1)] + ODD
    angles += [RANGE[0] + i * DECIMALS[0] for i in range(int((RANGE[1] - RANGE[0]) / DECIMALS[0]) + 1)]
    angles += [x + i * DECIMALS[1] for x in (-181, -90.5, -1, 44.5, 89.5, 179.5) for i in range(28)]
    angles += [np.float64(37.5), np.int64(-30), int(60)]
    for t in angles:
        if rec.full:
            return
        rec.step()
        rec.state()
        rec.outcome((k, round(float(ref.Qbar(MATS[k], t)[0, 2]), 6)))
        rec.run({'mat': k, 'angle': float(t)}, lambda: angle_case(k, t, r))


def replay(case, rec):
    if 'angle' in case:
        explore(case, rec)
    else:
        rec.run(case, lambda: material_case(case['mat']))
