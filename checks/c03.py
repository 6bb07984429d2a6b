import numpy as np
from hypothesis import strategies as st
from pbt import Check, require, close, arr
import gen
from gen import d, fl, seeds
from raytools import translate as tr

PI = np.pi
CHECK = Check('C03', rule='cases: angle sets (explicit special angles plus hash noise over the documented range) and '
              'direction sets incl. axes, poles, near-pole and lattice directions. Non-trivial: at least two values '
              'or a special one.')
SPT = [0.0, PI / 2, PI, PI / 4, 3 * PI / 4, 1e-6, PI - 1e-6, 1e-9]
SPP = [0.0, PI / 2, PI, 3 * PI / 2, 2 * PI, PI / 4, 1e-9, 2 * PI - 1e-9]
theta = st.one_of(st.floats(0, PI), st.sampled_from(SPT))
phi = st.one_of(st.floats(0, 2 * PI), st.sampled_from(SPP))


def geo(tp):
    t, p = tp.T
    return np.stack((np.sin(t) * np.cos(p), np.sin(t) * np.sin(p), np.cos(t)), 1)


@CHECK.sub('polar', d(tp=st.lists(st.tuples(theta, phi), min_size=1, max_size=8), n=st.integers(0, 500), seed=seeds,
                      lay=gen.layout, normalize=st.booleans(), turns=st.integers(-1, 2)), big=[(6, {'n': gen.many})], quick=800, thorough=20000)
def polar(case, rec):
    tp = np.concatenate((np.array(case['tp']).reshape(-1, 2),
                         gen.noise(case['seed'], (case['n'], 2)) * [[PI, 2 * PI]]))
    n = len(tp)
    rec.nontrivial(n > 1 or case['tp'][0][0] in SPT)
    ref = geo(tp)
    src = tp.copy()
    if case['normalize'] and case['turns']:
        rec.label('phi outside 0-2pi')
        src[:, 1] += case['turns'] * 2 * PI
    src = gen.lay(src, case['lay'])
    if not case['normalize']:
        xyz = tr.tp2xyz(src, normalize=False)
    else:
        xyz = tr.tp2xyz(src)
    close(arr(xyz, (n, 3), 'tp2xyz'), ref, 'tp2xyz direction', atol=1e-9)
    # without normalisation any angles are those of the formula
    far = tp + gen.noise(case['seed'] + 3, (n, 2), -1, 1) * [[4 * PI, 6 * PI]] * (gen.noise(case['seed'] + 4, (n, 1)) < .7)
    close(arr(tr.tp2xyz(far, normalize=False), (n, 3), 'tp2xyz'), geo(far), 'tp2xyz of any angles', atol=1e-9)
    back = arr(tr.xyz2tp(xyz), (n, 2), 'xyz2tp')
    require(np.all((back[:, 0] >= 0) & (back[:, 0] <= PI)), 'theta outside [0,pi]')
    require(np.all((back[:, 1] >= 0) & (back[:, 1] <= 2 * PI)), 'phi outside [0,2pi]')
    close(back[:, 0], tp[:, 0], 'theta round trip', atol=1e-7)
    s = np.sin(tp[:, 0]) > 1e-4
    dp = np.abs(back[:, 1] - tp[:, 1])
    require(np.all(np.minimum(dp, 2 * PI - dp)[s] < 1e-6), 'phi round trip')
    close(geo(back), ref, 'direction of xyz2tp', atol=2e-7)
    # normalisation keeps the direction
    nrm = arr(tr.tpnorm(src.copy()), (n, 2), 'tpnorm')
    require(np.all((nrm[:, 0] >= 0) & (nrm[:, 0] <= PI) & (nrm[:, 1] >= 0) & (nrm[:, 1] <= 2 * PI)), 'tpnorm range')
    close(geo(nrm), ref, 'tpnorm direction', atol=1e-9)
    if np.any(tp[:, 0] == PI):
        rec.label('has nadir')
    if np.any(tp[:, 0] == 0):
        rec.label('has zenith')


@CHECK.sub('directions', d(c=gen.dirs(500, 8), lay=gen.layout), big=[(5, {'c.n': gen.many})], quick=800, thorough=20000)
def directions(case, rec):
    v = gen.mk_dirs(case['c'])
    n = len(v)
    rec.nontrivial()
    src = gen.lay(v, case['lay'])
    tp = arr(tr.xyz2tp(src), (n, 2), 'xyz2tp')
    close(geo(tp), v, 'direction of xyz2tp', atol=2e-7)
    close(tr.tp2xyz(tp), v, 'tp2xyz(xyz2tp(v))', atol=2e-7)
    aa = arr(tr.xyz2aa(src), (n, 2), 'xyz2aa')
    require(np.all(np.abs(aa[:, 0]) <= 90 + 1e-9), 'altitude range')
    require(np.all((aa[:, 1] >= -180 - 1e-9) & (aa[:, 1] <= 180 + 1e-9)), 'azimuth range', az=aa[:, 1])
    close(tr.aa2xyz(aa), v, 'aa2xyz(xyz2aa(v))', atol=2e-7)
    close(np.sin(aa[:, 0] * PI / 180), v[:, 2], 'altitude', atol=1e-7)
    ph = np.abs(v[:, 2]) > .9999
    rec.label('near pole' if np.any(ph) else 'away from poles')


@CHECK.sub('altaz', d(aa=st.lists(st.tuples(
    st.one_of(st.floats(-90, 90), st.sampled_from([-90., 90., 0., 45.])),
    st.one_of(st.floats(-179.999, 180), st.sampled_from([0., 90., -90., 180., 45.]))), min_size=1, max_size=8),
    n=st.integers(0, 300), seed=seeds, lay=gen.layout, ints=st.booleans()), big=[(5, {'n': gen.many})], quick=600, thorough=20000)
def altaz(case, rec):
    aa = np.concatenate((np.array(case['aa']).reshape(-1, 2),
                         gen.noise(case['seed'], (case['n'], 2), -1, 1) * [[90, 179.99]]))
    if case['ints']:
        aa = np.trunc(aa)
    rec.nontrivial()
    src = gen.lay(aa.astype(int) if case['ints'] else aa, case['lay'])
    v = arr(tr.aa2xyz(src), (len(aa), 3), 'aa2xyz')
    close(np.linalg.norm(v, axis=1), np.ones(len(aa)), 'norm of aa2xyz')
    a, z = np.radians(aa).T
    # azimuth 0 is -y, growing towards -x (documented by the inverse pair)
    close(v[:, 2], np.sin(a), 'altitude of aa2xyz', atol=1e-9)
    ref = np.stack((np.cos(a) * np.cos(3 * PI / 2 - z), np.cos(a) * np.sin(3 * PI / 2 - z), np.sin(a)), 1)
    close(v, ref, 'aa2xyz', atol=1e-9)
    back = arr(tr.xyz2aa(v), aa.shape, 'xyz2aa')
    close(back[:, 0], aa[:, 0], 'altitude round trip', atol=1e-5)
    s = np.abs(aa[:, 0]) < 89.9
    dz = np.abs(back[:, 1] - aa[:, 1])
    require(np.all(np.minimum(dz, 360 - dz)[s] < 1e-5), 'azimuth round trip')


@CHECK.sub('angles', d(a=gen.dir1, c=gen.dirs(300, 8), rel=st.sampled_from(['any', 'same', 'opposite', 'near']),
                       shape=st.sampled_from(['n', 'flat', 'image']), lay=gen.layout, aslist=st.booleans()),
           big=[(5, {'c.n': gen.many})], quick=800, thorough=20000)
def angles(case, rec):
    a = gen.unit(case['a'])
    v = gen.mk_dirs(case['c'])
    if case['rel'] == 'same':
        v[0] = a
    elif case['rel'] == 'opposite':
        v[0] = -a
    elif case['rel'] == 'near':
        v = gen.unit(a + 1e-4 * v)
    rec.label(case['rel'])
    rec.nontrivial()
    n = len(v)
    w = gen.lay(v, case['lay'])
    if case['shape'] == 'flat':
        w, n = v[0], 1
        v = v[:1]
    elif case['shape'] == 'image' and n % 2 == 0:
        rec.label('image shaped')
        w = v.reshape(2, -1, 3)
    if case['aslist']:
        w = w.tolist()
        a1 = a.tolist()
    else:
        a1 = a
    ref = gen.ang(a, v)
    close(arr(tr.ctheta(a1, w), (n,), 'ctheta'), np.cos(ref), 'ctheta', atol=1e-12)
    require(np.all(np.abs(tr.ctheta(a1, w)) <= 1), 'ctheta outside [-1,1]')
    close(arr(tr.radians(a1, w), (n,), 'radians'), ref, 'radians', atol=5e-8)
    close(arr(tr.degrees(a1, w), (n,), 'degrees'), ref * 180 / PI, 'degrees', atol=5e-6)
    ch = np.linalg.norm(a - v, axis=1)
    close(tr.theta2chord(ref), ch, 'theta2chord', atol=1e-12)
    small = ref < PI - 1e-3
    close(tr.chord2theta(ch)[small], ref[small], 'chord2theta', atol=1e-10)


@CHECK.sub('chord', d(t=st.one_of(st.floats(0, PI), st.sampled_from(SPT)), n=st.integers(0, 200), seed=seeds),
           big=[(4, {'n': gen.many})], quick=300, thorough=5000)
def chord(case, rec):
    t = np.concatenate(([case['t']], gen.noise(case['seed'], case['n'], 0, PI)))
    rec.nontrivial()
    close(tr.theta2chord(t), np.sqrt(np.maximum(0, 2 - 2 * np.cos(t))), 'chord length', atol=3e-8)
    close(tr.chord2theta(tr.theta2chord(t)), t, 'chord round trip', atol=5e-8)
    require(abs(float(tr.chord2theta(tr.theta2chord(case['t']))) - case['t']) < 5e-8, 'scalar chord round trip')
    c = gen.noise(case['seed'] + 1, case['n'] + 1, 0, 2)
    close(tr.theta2chord(tr.chord2theta(c)), c, 'theta2chord(chord2theta(c))', atol=1e-9)


@CHECK.sub('fisheye', d(c=gen.dirs(500, 8), axes=st.sampled_from([(0, 1, 2), (0, 2, 1), (1, 2, 0), (2, 1, 0)]),
                        flip=st.booleans(), scale=st.one_of(st.just(1.0), gen.logfl(1e-3, 1e3)), lay=gen.layout),
           big=[(5, {'c.n': gen.many})], quick=600, thorough=20000)
def fisheye(case, rec):
    v = gen.mk_dirs(case['c'])
    ax = tuple(case['axes'])
    rec.nontrivial()
    src = gen.lay(v * case['scale'], case['lay'])
    xy = arr(tr.xyz2xy(src, axes=ax, flip=case['flip']), (len(v), 2), 'xyz2xy')
    axis = np.zeros(3)
    axis[ax[2]] = 1
    r = gen.ang(axis, v) / (PI / 2)
    close(np.linalg.norm(xy, axis=1), r, 'fisheye radius', atol=1e-9)
    h = np.hypot(v[:, ax[0]], v[:, ax[1]])
    k = h > 1e-9
    ref = np.stack((v[k, ax[0]], v[k, ax[1]]), 1) / h[k, None] * r[k, None]
    if case['flip']:
        ref[:, 0] *= -1
    close(xy[k], ref, 'fisheye position', atol=1e-8)
    close(tr.xyz2xy(src), tr.xyz2xy(src, axes=(0, 1, 2), flip=False), 'x to the right, y up unless asked otherwise', atol=1e-12)
