"""Independent reader/writer of Radiance .hdr (RGBE) files, and path/text strategies."""
import re

import numpy as np
from hypothesis import strategies as st


def decode(path):
    """-> (header lines, rgb (3,x,y) with y up, raw mantissas/exponents (x,y,4))"""
    with open(path, 'rb') as f:
        b = f.read()
    k = b.index(b'\n\n')
    lines = b[:k].decode('utf-8').split('\n')
    b = b[k + 2:]
    k = b.index(b'\n')
    m = re.fullmatch(r'([+-])([XY])\s+(\d+)\s+([+-])([XY])\s+(\d+)\s*', b[:k].decode())
    assert m and m.group(2) != m.group(5), f'resolution string {b[:k]!r}'
    h, w = int(m.group(3)), int(m.group(6))
    order = ''.join(m.group(1, 2, 4, 5))
    d = np.frombuffer(b[k + 1:], np.uint8)
    out = np.zeros((h, w, 4), np.uint8)
    p = 0
    for y in range(h):
        if 8 <= w < 32768 and d[p] == 2 and d[p + 1] == 2 and d[p + 2] < 128:
            assert int(d[p + 2]) * 256 + int(d[p + 3]) == w
            p += 4
            for c in range(4):
                x = 0
                while x < w:
                    n = int(d[p])
                    if n > 128:
                        out[y, x:x + n - 128, c] = d[p + 1]
                        x += n - 128
                        p += 2
                    else:
                        out[y, x:x + n, c] = d[p + 1:p + 1 + n]
                        x += n
                        p += 1 + n
        else:
            out[y] = d[p:p + 4 * w].reshape(w, 4)
            p += 4 * w
    assert p == len(d), 'file size'
    return lines, *values(scan(out, order, True))


#: orders of the pixels in a file: scan lines, then along a scan line
ORDERS = ['-Y+X', '-Y-X', '+Y+X', '+Y-X', '-X+Y', '-X-Y', '+X+Y', '+X-Y']


def scan(px, order, back=False):
    """pixels (x, y, .) with y up to scan lines of an order (or back)"""
    sx, sy = (1 if order[order.index(i) - 1] == '+' else -1 for i in 'XY')
    if not back:
        px = px[::sx, ::sy]
    if order[1] == 'Y':
        px = np.swapaxes(px, 0, 1)
    return px[::sx, ::sy] if back else px


def values(rgbe):
    e = rgbe[..., 3].astype(float)
    v = np.where(e[..., None] > 0, (rgbe[..., :3] + .5) * np.exp2(e - 136)[..., None], 0)
    return np.moveaxis(v, -1, 0), rgbe


def write(path, rgb, header=(), magic='#?RADIANCE', fmt='FORMAT=32-bit_rle_rgbe', order='-Y+X'):
    """flat RGBE file of rgb (3,x,y)"""
    m = rgb.max(0)
    f, e = np.frexp(m)
    q = np.where(m > 0, np.exp2(8. - e), 0)
    px = np.zeros((*m.shape, 4), np.uint8)
    px[..., :3] = np.minimum(np.floor(np.moveaxis(rgb, 0, -1) * q[..., None]), 255)
    px[..., 3] = np.where(m > 0, e + 128, 0)
    px = scan(px, order)
    # avoid the run length marker
    with open(path, 'wb') as o:
        o.write('\n'.join([magic, *header, fmt, '', '']).encode())
        o.write(f'{order[:2]} {px.shape[0]} {order[2:]} {px.shape[1]}\n'.encode())
        o.write(px.tobytes())


#: file names: no '/', control characters, leading '-'
name = st.one_of(
    st.sampled_from(['img.hdr', 'a b.hdr', "o'neil.hdr", 'say "hi".hdr', 'back\\slash.hdr', 'ünï cöde.hdr', 'x*?[1].hdr',
                     'semi;colon&.hdr', 'noext', 'two  spaces .hdr', '#hash.hdr', '%d{}.hdr', '~tilde.hdr', "it's \"x\".hdr",
                     'a:b.hdr', '-Y 3 +X 9.hdr'.replace('-Y', 'Y'), '$HOME.hdr', '`ls`.hdr', '(p).hdr', 'a.b.c.hdr', 'twice.hdr.hdr', 'in.hdr.mid.hdr', 'a.hdr_x.hdr', 'UP.HDR', 'x.pic', '$(ls).hdr', '$((1+1)).hdr', 'end|'+'.hdr', '|x.hdr']),
    st.text(st.sampled_from(list('$abXY019 \'"\\*?&;#%~:|<>(){}[]!@,+=é`^_.-')), min_size=1, max_size=20)
    .map(lambda s: 'f' + s + '.hdr'))
#: for names derived from the name of the input
name2 = st.one_of(name, st.sampled_from(['twice.hdr.hdr', 'in.hdr.mid.hdr', 'a.hdr_x.hdr', 'UP.HDR', 'x.pic', 'p.pic.pic', 'img_ang.hdr', 'img_uv.hdr', 'v1.0.hdr']))
subdir = st.sampled_from(['', '', 'sub', 'sub dir', "d'ir"])
