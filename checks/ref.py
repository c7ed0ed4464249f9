"""Reference filter weights, written from the kernels' formulas and evaluated in double precision.

Only the choice of window (which source pixels a destination pixel looks at) and the arguments of the
kernels are computed in single precision, as the library documents none and a kernel may jump there.
"""
import math
import struct

PI = math.pi
NAMES = ['Bilinear', 'Nearest', 'Cubic', 'MitchellNetravalli', 'CatmullRom', 'Hermite', 'BSpline', 'Hann', 'Bicubic',
         'Hamming', 'Hanning', 'Blackman', 'Welch', 'Quadric', 'Gaussian', 'Sphinx', 'Bartlett', 'Robidoux',
         'RobidouxSharp', 'Spline16', 'Spline36', 'Spline64', 'Kaiser', 'BartlettHann', 'Box', 'Bohman', 'Lanczos2',
         'Lanczos3', 'Lanczos4', 'Lanczos2Jinc', 'Lanczos3Jinc', 'Lanczos4Jinc', 'EwaHanning', 'EwaRobidoux',
         'EwaBlackman', 'EwaQuadric', 'EwaRobidouxSharp', 'EwaLanczos3Jinc', 'Ginseng', 'EwaGinseng',
         'EwaLanczosSharp', 'EwaLanczos4Sharpest', 'EwaLanczosSoft', 'HaasnSoft', 'Lagrange2', 'Lagrange3',
         'Lanczos6', 'Lanczos6Jinc', 'Area']
ID = {n: i for i, n in enumerate(NAMES)}


def f32(x):
    return struct.unpack('<f', struct.pack('<f', x))[0]


# ---- kernels ----------------------------------------------------------------------------------

def bc(b, c):
    def k(x):
        x = abs(x)
        if x < 1:
            return ((12 - 9 * b - 6 * c) * x ** 3 + (-18 + 12 * b + 6 * c) * x * x + 6 - 2 * b) / 6
        if x < 2:
            return ((-b - 6 * c) * x ** 3 + (6 * b + 30 * c) * x * x + (-12 * b - 48 * c) * x + 8 * b + 24 * c) / 6
        return 0.0
    return k


def bilinear(x):
    return max(0.0, 1 - abs(x))


def cubic_spline(x):
    return bc(1.0, 0.0)(x)


def bicubic(x):
    x = abs(x)
    a = -0.5
    if x <= 1:
        return (a + 2) * x ** 3 - (a + 3) * x * x + 1
    if x < 2:
        return a * (x ** 3 - 5 * x * x + 8 * x - 4)
    return 0.0


def hann(x):
    if abs(x) > 2:
        return 0.0
    return math.cos(x * PI / 4) ** 2 / 4


def hamming(x):
    x = abs(x)
    return 1.0 if x == 0 else 0.0 if x >= 1 else 0.54 + 0.46 * math.cos(PI * x)


def hanning(x):
    x = abs(x)
    return 0.0 if x >= 1 else 0.5 + 0.5 * math.cos(PI * x)


def sinc(x):
    return 1.0 if x == 0 else math.sin(x) / x


def blackman(x):
    x = abs(x)
    if x >= 2:
        return 0.0
    t = x / 2
    return sinc(x) * (0.42 - 0.49656062 * math.cos(2 * PI * t) + 0.07684867 * math.cos(4 * PI * t))


def welch(x):
    return 0.0 if x >= 1 else 1 - x * x


def quadric(x):
    x = abs(x)
    if x < 0.5:
        return 0.75 - x * x
    if x < 1.5:
        return 0.5 * (x - 1.5) ** 2
    return 0.0


def gaussian(x):
    s = 0.35
    den = (2 * s * s) ** 2
    return math.exp(-x / den) / (math.sqrt(2 * PI) * s)


def sphinx(x):
    if abs(x) < 1e-8:
        return 1.0
    x *= PI
    return 3 * (math.sin(x) - x * math.cos(x)) / x ** 3


def bartlett(x):
    return 2 * x if 0 <= x <= 1 else 2 - 2 * x


def spline16(x):
    if x < 1:
        return ((x - 9 / 5) * x - 1 / 5) * x + 1
    x -= 1
    return ((-1 / 3 * x + 4 / 5) * x - 7 / 15) * x


def spline36(x):
    if x < 1:
        return ((13 / 11 * x - 453 / 209) * x - 3 / 209) * x + 1
    if x < 2:
        x -= 1
        return ((-6 / 11 * x + 270 / 209) * x - 156 / 209) * x
    x -= 2
    return ((1 / 11 * x - 45 / 209) * x + 26 / 209) * x


def spline64(x):
    if x < 1:
        return ((49 / 41 * x - 6387 / 2911) * x - 3 / 2911) * x + 1
    if x < 2:
        x -= 1
        return ((-24 / 41 * x + 4032 / 2911) * x - 2328 / 2911) * x
    if x < 3:
        x -= 2
        return ((6 / 41 * x - 1008 / 2911) * x + 582 / 2911) * x
    x -= 3
    return ((-1 / 41 * x + 168 / 2911) * x - 97 / 2911) * x


def bessel_i0(x):
    # I0(x) = sum (x/2)^2k / k!^2
    s = t = 1.0
    k = 1
    while t > 1e-16 * s:
        t *= (x * x / 4) / (k * k)
        s += t
        k += 1
    return s


def kaiser(x):
    return 0.0 if x > 1 else bessel_i0(6.33 * math.sqrt(1 - x * x)) / bessel_i0(6.33)


def bartlett_hann(x):
    x = abs(x)
    if x > 2:
        return 0.0
    f = abs(x - 0.5)
    return 0.62 - 0.4832 * f + 0.38 * math.cos(2 * PI * f)


def bohman(x):
    x = abs(x)
    if x > 1:
        return 0.0
    return (1 - x) * math.cos(PI * x) + math.sin(PI * x) / PI


def lanczos(a):
    def k(x):
        x = abs(x)
        return sinc(PI * x) * sinc(PI * x / a) if x < a else 0.0
    return k


def j1(x):
    # J1 by its integral, (1/pi) * int_0^pi cos(t - x sin t) dt; the trapezium rule converges geometrically
    n = 64 + 2 * int(abs(x))
    s = 0.5 * (1.0 + math.cos(PI))
    for i in range(1, n):
        t = PI * i / n
        s += math.cos(t - x * math.sin(t))
    return s / n


def jinc(x):
    return 0.5 if x == 0 else j1(x) / x


def lanczos_jinc(a):
    def k(x):
        x = abs(x)
        if x > 16.247661874700962 or x >= a:
            return 0.0
        return jinc(PI * x) * jinc(PI * x / a)
    return k


def lagrange(support):
    def k(x):
        if x > support:
            return 0.0
        n = int(support + x)
        v = 1.0
        for i in range(2 * support):
            if i != n:
                v *= (n - i - x) / (n - i)
        return v
    return k


R2 = math.sqrt(2)
J3, J4 = 3.2383154841662362, 4.2410628637960699


class Filt:
    def __init__(self, k, base, ewa=False, resize=True, area=False, window=None):
        self.k, self.base, self.ewa, self.resize, self.area, self.window = k, base, ewa, resize, area, window


ROB = bc(12 / (19 + 9 * R2), 13 / (58 + 216 * R2))
ROBS = bc(6 / (13 + 7 * R2), 7 / (2 + 12 * R2))
F = {
    'Bilinear': Filt(bilinear, 2), 'Cubic': Filt(cubic_spline, 2), 'MitchellNetravalli': Filt(bc(1 / 3, 1 / 3), 2),
    'Lanczos3': Filt(lanczos(3), 3), 'CatmullRom': Filt(bc(0, 0.5), 2), 'Hermite': Filt(bc(0, 0), 2),
    'BSpline': Filt(bc(1, 0), 2), 'Hann': Filt(hann, 3), 'Bicubic': Filt(bicubic, 2), 'Lanczos4': Filt(lanczos(4), 4),
    'Lanczos2': Filt(lanczos(2), 2), 'Hamming': Filt(hamming, 2), 'Hanning': Filt(hanning, 2),
    'EwaHanning': Filt(jinc, 1, True, window=(hanning, 2, 0, 0)), 'Welch': Filt(welch, 2), 'Quadric': Filt(quadric, 2),
    'EwaQuadric': Filt(quadric, 2, True), 'Gaussian': Filt(gaussian, 2), 'Sphinx': Filt(sphinx, 2),
    'Bartlett': Filt(bartlett, 2), 'Robidoux': Filt(ROB, 2), 'EwaRobidoux': Filt(ROB, 2, True),
    'RobidouxSharp': Filt(ROBS, 2), 'EwaRobidouxSharp': Filt(ROBS, 2, True),
    'Spline16': Filt(spline16, 2, resize=False), 'Spline36': Filt(spline36, 4, resize=False),
    'Spline64': Filt(spline64, 6, resize=False), 'Kaiser': Filt(kaiser, 2), 'BartlettHann': Filt(bartlett_hann, 2),
    'Box': Filt(lambda x: 1.0, 2), 'Area': Filt(lambda x: 1.0, 2, area=True), 'Bohman': Filt(bohman, 2),
    'Lanczos2Jinc': Filt(lanczos_jinc(2), 2), 'Lanczos3Jinc': Filt(lanczos_jinc(3), 3),
    'EwaLanczos3Jinc': Filt(lanczos_jinc(3), 3, True), 'Lanczos4Jinc': Filt(lanczos_jinc(4), 4),
    'Blackman': Filt(blackman, 2), 'EwaBlackman': Filt(blackman, 2, True),
    'Ginseng': Filt(sinc, 3, window=(jinc, 3, 1, 0)), 'EwaGinseng': Filt(sinc, 3, True, window=(jinc, J3, 1, 0)),
    'EwaLanczosSharp': Filt(jinc, 3, True, window=(jinc, J3, 0.9812505837223707, 0)),
    'EwaLanczos4Sharpest': Filt(jinc, 4, True, window=(jinc, J4, 0.8845120932605005, 0)),
    'EwaLanczosSoft': Filt(jinc, 3, True, window=(jinc, J3, 1.0164667662867047, 0)),
    'HaasnSoft': Filt(jinc, 3, window=(hanning, 3, 1.11, 0)), 'Lagrange2': Filt(lagrange(2), 2),
    'Lagrange3': Filt(lagrange(3), 3), 'Lanczos6Jinc': Filt(lanczos_jinc(6), 6), 'Lanczos6': Filt(lanczos(6), 6),
}
NONNEG = ['Bilinear', 'Hermite', 'BSpline', 'Cubic', 'Hann', 'Hamming', 'Hanning', 'Quadric', 'Welch', 'Kaiser', 'Box',
          'Area', 'Gaussian']


def raw(filt, n_in, n_out, nudge=0.0):
    """per destination pixel: (start, [unnormalised weights])"""
    f = F[NAMES[filt]]
    scale = f32(f32(n_in) / f32(n_out))
    res = []
    if f.area and scale < 1:
        inv = f32(1 / scale)
        for i in range(n_out):
            sx = math.floor(f32(i * scale))
            fx = f32((i + 1) - f32((sx + 1) * inv))
            d = 0.0 if fx <= 0 else f32(fx - math.floor(fx))
            w = [1 - d, d][:min(n_in - sx, 2)]
            if sum(w) == 0:
                w = [1.0] + [0.0] * (len(w) - 1)
            res.append((sx, w))
        return res
    cut = max(scale, 1.0) if f.resize else 1.0
    v = f32(f.base * cut)
    base = math.floor(v + 0.5)
    radius = base / 2
    inv = f32(1 / cut)
    for i in range(n_out):
        c = min(f32((i + 0.5) * scale) + nudge * max(1.0, i * scale), float(n_in))
        c = f32(c - 0.5)
        # the pixels whose centres are closer than the radius
        start = int(min(max(0, math.floor(f32(c - radius)) + 1), n_in - 1))
        end = int(min(max(math.ceil(f32(c + radius)), start + 1), start + base, n_in))
        ws = []
        for k in range(start, end):
            x = abs(f32(k - c))
            if f.window:
                wf, size, blur, taper = f.window
                if blur > 0:
                    x = f32(x * f32(1 / f32(blur)))
                x = 0.0 if x <= taper else (x - taper) / (1 - taper)
                xs = f32(x * inv)
                ws.append((wf(f32(xs * f32(size))) if x < f32(size) else 0.0) * f.k(xs))
            else:
                ws.append(f.k(f32(x * inv) + abs(nudge)) if nudge < 0 else f.k(max(0.0, f32(x * inv) - nudge)))
        if f.ewa and ws:
            for j in range(1, len(ws)):
                ws[j] = 0.7 * ws[j] + 0.3 * ws[j - 1]
        res.append((start, ws))
    return res


def weights(filt, n_in, n_out, nudge=0.0):
    """per destination pixel: (start, [weights that add up to one])"""
    r = []
    scale = f32(f32(n_in) / f32(n_out))
    for i, (s, ws) in enumerate(raw(filt, n_in, n_out, nudge)):
        t = sum(ws)
        if t:
            ws = [w / t for w in ws]
        elif ws:
            # the kernel vanishes on the whole window: the closest source pixel
            c = max(0.0, min((i + 0.5) * scale, n_in) - 0.5)
            ws = [0.0] * len(ws)
            ws[max(0, min(len(ws) - 1, math.floor(c + 0.5) - s))] = 1.0
        r.append((s, ws))
    return r
