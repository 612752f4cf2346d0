"""Image masks: every shape, task size and position draw; partition, sizes, positions, and the round trip."""
import itertools
import numpy as np
import jax
import jax.numpy as jnp
from mc import p08
from mc.explore import explore, conformance
from mc.report import Violation
from fbs.data.images import ImageRestore, InpaintingMask, SRMask


def images(shape, lead):
    """Images whose entries are all different, and one with repeated ones."""
    n = int(np.prod(lead, dtype=int)) * int(np.prod(shape))
    a = np.arange(1., n + 1).reshape(*lead, *shape)
    return [a, np.sin(a), np.zeros_like(a) + (a % 3 == 0)]


def block_of(p, h, rate):
    return (p // h) // rate, (p % h) // rate


def judge(ck, task, shape, random, leads=((), (2,), (2, 3)), x32=False, budget=3e7):
    w, h, c = shape
    s = int(task.split('-')[-1])
    ds = ImageRestore(task=task, image_shape=shape, sr_random=random)
    npix = w * h
    chunk = 16 if 'inpaint' in task or not random else int(min(4096, max(16, float(s * s) ** ((w // s) * (h // s)))))

    def fn(key, dummy):
        m = ds.gen_mask(key)
        trips = []
        for lead in leads:
            for img in images(shape, lead):
                x, y = ds.unpack(jnp.asarray(img), m)
                trips.append((x, y, ds.concat(x, y, m)))
                p, q = x.shape[-2], y.shape[-2]
                x2 = jnp.asarray(np.cos(np.arange(np.prod(lead, dtype=int) * p * c)).reshape(*lead, p, c))
                y2 = jnp.asarray(np.exp(-np.arange(np.prod(lead, dtype=int) * q * c)).reshape(*lead, q, c))
                trips.append((x2, y2) + tuple(ds.unpack(ds.concat(x2, y2, m), m)))
        return jnp.asarray(m.unobs_inds_ravelled), jnp.asarray(m.obs_inds_ravelled), trips

    law = explore(fn, (np.zeros(1),), uniform=2, budget=budget, x32=x32, chunk=chunk)
    ck.count(law)
    un, ob, trips = law.out
    pos = law.w > 0
    un, ob = np.asarray(un)[pos], np.asarray(ob)[pos]
    ck.close(law.mass(1), np.ones(1), 'mass', 'probabilities add up', tol=1e-6)
    nun = s * s if 'inpaint' in task else npix - npix // (s * s)
    ck.require(un.shape[1] == nun and ob.shape[1] == npix - nun, 'size',
               f'{un.shape[1]} unobserved and {ob.shape[1]} observed pixels, expected {nun} and {npix - nun}')
    ck.require(tuple(ds.unobs_shape) == (nun, c), 'announced', f'announced shape {ds.unobs_shape}, expected {(nun, c)}')
    both = np.sort(np.concatenate([un, ob], axis=1), axis=1)
    ck.require((both == np.arange(npix)).all(), 'partition', 'the two parts are not a partition of the pixels: '
               f'{un[(both != np.arange(npix)).any(1)][:1].tolist()}')
    # positions
    prob = {}
    for r, pr in zip(range(len(un)), law.w[pos]):
        u = np.sort(un[r])
        if 'inpaint' in task:
            i, j = divmod(int(u[0]), h)
            want = np.array([(i + a) * h + j + b for a in range(s) for b in range(s)])
            ck.require(i + s <= w and j + s <= h and np.array_equal(u, want), 'square',
                       f'the unobserved part is not a {s} x {s} square inside the image: {u.tolist()}')
            k = (i, j)
        else:
            o = ob[r]
            bl = {block_of(int(p), h, s) for p in o}
            ck.require(len(bl) == (w // s) * (h // s) == len(o), 'blocks',
                       f'not one observed pixel in each block: {o.tolist()}')
            k = tuple(sorted(int(p) for p in o))
        prob[k] = prob.get(k, 0.) + pr
    if 'inpaint' in task:
        base = {(k, k) for k in range(max(1, min(w, h) - s))}
        ck.require(base <= set(prob), 'positions', f'positions never drawn: {sorted(base - set(prob))}')
    elif random:
        ck.require(len(prob) == (s * s) ** ((w // s) * (h // s)), 'positions', 'not every choice of observed pixels is drawn')
    else:
        mid = tuple(sorted((i + s // 2) * h + j + s // 2 for i in range(0, w, s) for j in range(0, h, s)))
        ck.require(set(prob) == {mid}, 'middle', f'the observed pixels are not the middle ones: {list(prob)[0]}')
    ck.close(list(prob.values()), np.full(len(prob), 1 / len(prob)), 'uniform', 'positions are not drawn equally often', tol=1e-6)
    # round trips
    it = iter(trips)
    for lead in leads:
        for img in images(shape, lead):
            x, y, xy = (np.asarray(a)[pos] for a in next(it))
            n = len(xy)
            im = img.astype(np.float32) if x32 else img
            ck.require(xy.shape == (n,) + img.shape and (xy == im).all(), 'reassemble',
                       f'splitting and reassembling changes an image (leading shape {lead})')
            fl = im.reshape(*lead, npix, c)
            for r in range(n):
                ck.require(np.array_equal(x[r], fl[..., un[r], :]) and np.array_equal(y[r], fl[..., ob[r], :]), 'split',
                           'the parts are not the pixels the mask names')
            x2, y2, x3, y3 = (np.asarray(a)[pos] for a in next(it))
            ck.require(np.array_equal(x2, x3) and np.array_equal(y2, y3), 'resplit',
                       f'reassembling and splitting changes a pair (leading shape {lead})')
    ck.sample(task=task, shape=shape, masks=len(un), unobserved=un[0])
    if not x32:
        try:
            ck.count(traces=conformance(lambda key, d: fn(key, d)[:2], (np.zeros(1),), _part(law), 20, 1))
        except AssertionError as e:
            raise Violation('conformance', str(e))


class _part:
    def __init__(self, law):
        self.init, self.w, self.leaves = law.init, law.w, law.leaves[:2]


def any_mask(ck, task, shape):
    """Every mask that two index lists in any order define, and one observed part shared by many hidden parts."""
    w, h, c = shape
    ds, n = ImageRestore(task=task, image_shape=shape), w * h
    cls = InpaintingMask if 'inpaint' in task else SRMask
    perms = jnp.asarray(list(itertools.permutations(range(n))))
    img = np.arange(1., n * c + 1).reshape(shape)
    for k in range(1, n):
        q = n - k
        x2, y2 = np.cos(np.arange(3. * k * c)).reshape(3, k, c), np.exp(-np.arange(1. * q * c)).reshape(q, c)

        def one(p):
            m = cls(**{f: 1 for f in cls._fields if 'inds' not in f}, unobs_inds_ravelled=p[:k], obs_inds_ravelled=p[k:])
            x, y = ds.unpack(jnp.asarray(img), m)
            return x, y, ds.concat(x, y, m), ds.concat(jnp.asarray(x2), jnp.asarray(y2), m)

        x, y, xy, many = (np.asarray(a) for a in jax.jit(jax.vmap(one))(perms))
        fl, P = img.reshape(n, c), np.asarray(perms)
        ck.require(np.array_equal(x, fl[P[:, :k]]) and np.array_equal(y, fl[P[:, k:]]), 'split', 'the parts are not the pixels the mask names, in its order')
        ck.require(np.array_equal(xy, np.broadcast_to(img, xy.shape)), 'reassemble', 'splitting and reassembling changes an image when the mask is not sorted')
        want = np.zeros((len(P), 3, n, c))
        for i in range(3):
            np.put_along_axis(want[:, i], P[:, :k, None], np.broadcast_to(x2[i], (len(P), k, c)), axis=1)
            np.put_along_axis(want[:, i], P[:, k:, None], np.broadcast_to(y2, (len(P), q, c)), axis=1)
        ck.require(many.shape == (len(P), 3, *shape) and np.allclose(many.reshape(want.shape), want, atol=1e-12), 'shared', 'one observed part is not shared by all hidden parts')
        ck.count(states=len(P), transitions=2 * len(P))


def full_size(ck, shape, rate):
    """Random observed pixels of images of the sizes in use, where the choices are too many: what holds for every key."""
    w, h, c = shape
    ds = ImageRestore(task=f'supr-{rate}', image_shape=shape)
    nb, offs = (w // rate) * (h // rate), set()
    for seed in range(8 if not ck.thorough else 64):
        m = ds.gen_mask(jax.random.PRNGKey(seed))
        un, ob = np.asarray(m.unobs_inds_ravelled, int), np.asarray(m.obs_inds_ravelled, int)
        ck.require(un.shape == (w * h - nb,) and ob.shape == (nb,), 'size', f'{un.shape[0]} unobserved and {ob.shape[0]} observed pixels of {shape}')
        ck.require(tuple(ds.unobs_shape) == (w * h - nb, c), 'announced', f'announced shape {ds.unobs_shape}')
        ck.require(np.array_equal(np.sort(np.concatenate([un, ob])), np.arange(w * h)), 'partition', 'the two parts are not a partition of the pixels')
        ck.require(len({block_of(int(p), h, rate) for p in ob}) == nb, 'blocks', 'not one observed pixel in each block')
        offs |= {(int(p) // h % rate, int(p) % h % rate) for p in ob}
        img = np.arange(1., w * h * c + 1).reshape(shape)
        x, y = ds.unpack(jnp.asarray(img), m)
        ck.require(np.array_equal(ds.concat(x, y, m), img), 'reassemble', 'splitting and reassembling changes an image')
        fl = img.reshape(w * h, c)
        ck.require(np.array_equal(x, fl[un]) and np.array_equal(y, fl[ob]), 'split', 'the parts are not the pixels the mask names')
        ck.count(states=1, transitions=nb, traces=1)
    ck.require(len(offs) == rate * rate, 'positions', f'only {len(offs)} of the {rate * rate} places in a block are ever observed')


def sampler(ck, task, shape, random, n):
    """The sampler pairs a uniformly drawn item with an independently drawn mask and the observed part of that item."""
    w, h, c = shape
    ds = ImageRestore(task=task, image_shape=shape, sr_random=random)
    ds.n = n
    ds.xs = jnp.asarray(np.arange(1., n * w * h * c + 1).reshape(n, *shape))

    def fn(key, d):
        x, y, m = ds.sampler(key)
        return x, y, m.unobs_inds_ravelled, m.obs_inds_ravelled

    law = explore(fn, (np.zeros(1),), uniform=2, chunk=256)
    ck.count(law)
    x, y, un, ob = (np.asarray(a) for a in law.out)
    item = {tuple(np.asarray(ds.xs[i]).ravel()): i for i in range(n)}
    P = {}
    for r in range(len(law.w)):
        k = item.get(tuple(x[r].ravel()))
        ck.require(k is not None, 'item', 'the sampled image is not an item of the dataset')
        ck.require(np.array_equal(y[r], x[r].reshape(w * h, c)[ob[r]]), 'pair', 'the observation is not part of the sampled item')
        P[(k, tuple(un[r]))] = P.get((k, tuple(un[r])), 0.) + law.w[r]
    masks = {m for _, m in P}
    ck.require(len(P) == n * len(masks), 'joint', 'some pair of item and mask is never drawn')
    ck.close(list(P.values()), np.full(len(P), 1. / len(P)), 'joint', 'item and mask are not independent and uniform', tol=1e-9)
    try:
        ck.count(traces=conformance(fn, (np.zeros(1),), law, 20, 1))
    except AssertionError as e:
        raise Violation('conformance', str(e))


def enumeration(ck, shape):
    """Chunks of a restoration dataset are the items their indices name."""
    ds = ImageRestore(task='inpaint-1', image_shape=shape)
    ds.n, ds.xs = 4, jnp.asarray(np.arange(4. * np.prod(shape)).reshape(4, *shape))

    def fn(key, d):
        ds.init_enumeration(key, 2)
        own = [ds.enumerate_subset(i) for i in range(2)]
        other = ds.enumerate_subset(1, perm_inds=[jnp.array([0, 1]), jnp.array([3, 2])])
        p = ds.perm_inds
        return jnp.stack(own), jnp.stack(p), other

    law = explore(fn, (np.zeros(1),), uniform=2, chunk=256)
    ck.count(law)
    own, p, other = law.out
    xs = np.asarray(ds.xs)
    ck.require(np.array_equal(own, xs[p]), 'chunk', 'a chunk is not made of the items its indices name')
    ck.require((other == xs[[3, 2]]).all(), 'chunk', 'given indices are not used')


def unknown(ck):
    for make in (lambda: ImageRestore(task='blur-3', image_shape=(4, 4, 1)),):
        try:
            make()
        except ValueError:
            ck.require(True, 'unknown', '')
        else:
            ck.require(False, 'unknown', 'an unknown task is accepted')


def run(ck):
    top = 7 if not ck.thorough else 10
    for w, h in itertools.product(range(2, top), repeat=2):
        for s in range(1, min(w, h) + 1):
            c = 1 + (w + h + s) % 3
            name = ('inpaint', 'inpainting')[s % 2]
            ck.case(f'{name}-{s}-{w}x{h}x{c}', judge, ck, f'{name}-{s}', (w, h, c), True,
                    ((), (2,), (2, 3)) if max(w, h) < 5 else ((), (2,)))
    limit = 2e4 if not ck.thorough else 3e5
    for rate in (1, 2, 3, 4) if not ck.thorough else (1, 2, 3, 4, 5):
        for a, b in itertools.product(range(1, 7), repeat=2):
            w, h = a * rate, b * rate
            if max(w, h) > (8 if not ck.thorough else 12) or w * h < 2:
                continue
            c = 1 + (a + 2 * b + rate) % 3
            outcomes = float(rate * rate) ** (a * b)
            if outcomes <= limit and rate > 1:
                ck.case(f'supr-{rate}-{w}x{h}x{c}', judge, ck, f'supr-{rate}', (w, h, c), True,
                        ((), (2, 3)) if outcomes < 300 else ((2,),))
            if rate > 1:
                ck.case(f'supr-{rate}-middle-{w}x{h}x{c}', judge, ck, f'supr-{rate}', (w, h, c), False)
    ck.case('inpaint-3-float32', judge, ck, 'inpaint-3', (7, 6, 2), True, ((2,),), True)
    ck.case('supr-2-float32', judge, ck, 'supr-2', (4, 6, 2), True, ((2,),), True)
    for task, shape in (('inpaint-15', (28, 28, 1)), ('inpaint-15', (32, 32, 3)), ('inpaint-32', (64, 64, 3)), ('inpaint-20', (40, 28, 1)),
                        ('inpaint-28', (28, 28, 1))) + ((('inpaint-64', (128, 128, 3)), ('inpaint-15', (64, 64, 3))) if ck.thorough else ()):
        ck.case(f'full-{task}-{shape[0]}x{shape[1]}', judge, ck, task, shape, True, ((),))
    for rate, shape in ((4, (28, 28, 1)), (2, (32, 32, 3)), (4, (64, 64, 3)), (8, (64, 32, 1)), (4, (128, 128, 3))):
        ck.case(f'full-supr-{rate}-middle-{shape[0]}x{shape[1]}', judge, ck, f'supr-{rate}', shape, False, ((),))
        if shape != (64, 32, 1):
            ck.case(f'full-supr-{rate}-{shape[0]}x{shape[1]}', full_size, ck, shape, rate)
    for task, shape, rnd in (('inpaint-2', (4, 5, 2), True), ('supr-2', (4, 2, 1), True), ('supr-2', (4, 4, 3), False),
                             ('inpaint-3', (8, 6, 1), True)):
        for n in (1, 3, 5):
            ck.case(f'sampler-{task}-{n}-{rnd}', sampler, ck, task, shape, rnd, n)
    for shape in ((2, 3, 1), (3, 2, 2)):
        ck.case(f'enumeration-{shape}', enumeration, ck, shape)
    for task, shape in (('inpaint-1', (2, 3, 2)), ('supr-1', (3, 2, 1)), ('inpaint-1', (1, 5, 1))) + ((('inpaint-1', (7, 1, 1)),) if ck.thorough else ()):
        ck.case(f'order-{task}-{shape}', any_mask, ck, task, shape)
    ck.case('unknown', unknown, ck)
    p08.keys(ck, 'restore-')
    ck.bound(f'inpainting: all images of 2..{top - 1} x 2..{top - 1} pixels, all square sizes, all shifts; super-resolution: '
             f'rates 2..4 on all images of up to 8 x 8 pixels with at most {int(limit)} draws; 1 to 3 channels; leading shapes (), (2,), (2, 3); every split of 5 or 6 pixels in every order of the indices')
    ck.assume('super-resolution is specified for images whose sides the rate divides, inpainting for squares that fit')
