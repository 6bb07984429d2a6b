"""Independent reference of position indices and glare metrics, straight from the published formulas."""
import numpy as np
import gen
import views


def guth(s, t):
    """Guth position index of a source sigma (degrees) off the line of sight, tau from the vertical"""
    return np.exp((35.2 - .31889 * t - 1.22 * np.exp(-2 * t / 9)) * 1e-3 * s + (21 + .26667 * t - .002963 * t * t) * 1e-5 * s * s)


def kim(s, t):
    return np.exp((s - (-.000009 * t ** 3 + .0014 * t ** 2 + .0866 * t + 21.633)) / (-.000009 * t ** 3 + .0013 * t ** 2 + .0853 * t + 8.772))


def posidx(dv, v, model='guth'):
    w = np.asarray(v, float) @ views.frame(dv).T
    x, y, z = np.moveaxis(w, -1, 0)
    rho = np.hypot(x, y)
    s = np.degrees(np.arctan2(rho, z))
    t = np.degrees(np.arctan2(np.abs(x), y))
    if model != 'guth':
        return np.where(rho > 0, kim(s, t), 1.0)
    low = y < 0
    with np.errstate(all='ignore'):
        b = np.degrees(np.arctan(np.hypot(x, 1.15 * y) / z))
    p = np.where(low, guth(b, 90.), guth(s, t))
    p = np.where(z < 0, 16., np.minimum(p, 16))
    return np.where(rho > 0, p, np.where(z > 0, 1., 16.))


def metrics(dv, v, o, l, scale=179., threshold=2000., model='guth', tradius=30., lowlight=False, area=None):
    """all metrics of rays which are all in the view"""
    E = {}
    with np.errstate(all='ignore'):
        L = l * scale
        c = v @ gen.unit(dv)
        p = posidx(dv, v, model)
        A = np.sum(o) if area is None else area
        pw = o / p ** 2
        E['view_area'] = A
        E['illum'] = np.sum(c * L * o)
        E['avglum'] = np.sum(L * o) / A
        E['maxlum'] = np.max(L) if len(L) else 0.
        E['avgraylum'] = np.mean(L)
        E['pwavglum'] = np.sum(L * pw) / np.sum(pw)
        E['gcr'] = np.sum(L * L * o) / A / E['avglum'] ** 2 if E['avglum'] > 0 else 1.
        E['pwgcr'] = np.sum(L * L * pw) / np.sum(pw) / E['pwavglum'] ** 2 if E['pwavglum'] > 0 else 1.
        E['loggcr'] = np.log10(E['gcr'])
        E['logpwgcr'] = np.log10(E['pwgcr'])
        E['density'] = len(L) / A
        task = np.degrees(gen.ang(v, gen.unit(dv))) < tradius
        E['tasklum'] = np.sum((L * o)[task]) / np.sum(o[task])
        E['threshold'] = threshold if threshold > 100 else threshold * E['tasklum']
        s = L > E['threshold']
        E['srcillum'] = np.sum((c * L * o)[s])
        E['srcarea'] = np.sum(o[s])
        E['pwsl2'] = np.sum((L * L * o / p ** 2)[s])
        E['backlum'] = np.sum((c * L * o)[~s]) / np.pi
        E['backlum_true'] = np.sum((L * o)[~s]) / np.sum(o[~s])
        E['dgp_t1'] = 5.87e-5 * E['illum']
        E['log_gc'] = np.log10(1 + E['pwsl2'] / E['illum'] ** 1.87)
        E['dgp_t2'] = 9.18e-2 * E['log_gc']
        ll = 1
        if lowlight and E['illum'] < 500:
            ll = np.exp(.024 * E['illum'] - 4) / (1 + np.exp(.024 * E['illum'] - 4))
        E['dgp'] = np.minimum(1., ll * (.16 + E['dgp_t1'] + E['dgp_t2']))
        E['ugr'] = np.maximum(0., 8 * np.log10(.25 * E['pwsl2'] / E['backlum']))
        E['ugp'] = (1 + 2 / 7 * 10 ** (-(E['ugr'] + 5) / 40)) ** -10
    return E
