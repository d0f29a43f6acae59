"""C12: features of an utterance depend on its audio and configuration only."""
import io
import os

import numpy as np
from scipy.io import wavfile

from .. import core, cli, lab as L
from ..engine import check, expect

ID = 'C12'
QUICK, THOROUGH = (1880, 240), (25000, 800)
RULE = ('A run extracts the features of 1-7 utterances (several audio formats '
        'and lengths, files and commands, some unusable) under 1-2 '
        'configurations with 1-4 concurrent jobs over a random split and order '
        'of the list, with failing or partial commands, I/O errors, short '
        'transfers, stalls, kills and reruns. Non-trivial: two jobs overlapped, '
        'a list held several utterances or a fault fired; distinct by '
        'interleaving and configuration.')
REAL = ['beer features extract, beer.features', 'scipy WAV reader, numpy I/O on '
        'scratch files']
STUB = ['audio commands, file system errors and latency, process scheduling '
        '(simulator)']
ASSUMPTIONS = ['a command that fails says so by its exit status',
               'audio has one channel']
SCHEDS = ['fifo', 'lifo', 'uniform', 'uniform', 'pct']
DEFAULTS = {'srate': 16000, 'preemph': 0.97, 'window_len': 0.025,
            'framerate': 0.01, 'apply_fbank': True, 'nfilters': 26,
            'cutoff_hfreq': 8000, 'cutoff_lfreq': 20, 'apply_deltas': True,
            'delta_order': 2, 'delta_winlen': 2, 'apply_dct': True,
            'n_dct_coeff': 13, 'lifter_coeff': 22, 'utt_mnorm': False,
            'add_energy': True}
HARD = ['kill', 'eio_read', 'eio_open', 'enospc', 'eio_write', 'close_err', 'nomem']
SOFT = ['stall', 'short_read', 'short_write']


def gen_conf(rng):
    c = {}
    if rng.random() < .3:
        c['window_len'] = rng.choice([.02, .025, .03, .032])
    if rng.random() < .3:
        c['framerate'] = rng.choice([.005, .01, .0125, .02])
    if rng.random() < .3:
        c['preemph'] = rng.choice([0., .5, .9, 1.])
    if rng.random() < .4:
        c['nfilters'] = rng.choice([8, 13, 20, 24])
    if rng.random() < .3:
        c['cutoff_lfreq'] = rng.choice([20, 100, 300])
    if rng.random() < .3:
        c['cutoff_hfreq'] = rng.choice([4000, 6000, 8000])
    if rng.random() < .25:
        c['apply_dct'] = False
        if rng.random() < .4:
            c['apply_fbank'] = False
    elif rng.random() < .4:
        c['n_dct_coeff'] = rng.choice([3, 8])
        c['lifter_coeff'] = rng.choice([10, 22, 30])
    if rng.random() < .4:
        c['apply_deltas'] = rng.random() < .3
    if rng.random() < .3:
        c['delta_order'] = rng.choice([1, 2, 3])
        c['delta_winlen'] = rng.choice([1, 2, 3])
    if rng.random() < .5:
        c['utt_mnorm'] = True
    if rng.random() < .3:
        c['add_energy'] = False
    if rng.random() < .12:
        c['srate'] = 8000
    if not c:
        c['srate'] = 16000
    return c


def generate(rng, index, tier):
    confs = [gen_conf(rng)]
    if rng.random() < .35:
        confs.append(gen_conf(rng))
        confs[1].pop('srate', None)
        if 'srate' in confs[0]:
            confs[1]['srate'] = confs[0]['srate']
    sr = confs[0].get('srate', 16000)
    utts = []
    n = rng.choice([1, 2, 3, 4, 5, 7] if rng.random() < .95 else [14])
    for i in range(n):
        kind = 'ok'
        if rng.random() < .1:
            kind = rng.choice(['missing', 'garbage', 'empty', 'header', 'data',
                               'rate', 'rate', 'short', 'cmdfail', 'cmdfail'])
        name = f'u{i}' if rng.random() < .7 else \
            rng.choice(['spk-%d', '%d', 'a.b_%d', 'u.npy%d', 'U%d.wav']) % i
        utts.append({'id': name, 'kind': kind, 'seed': rng.getrandbits(30),
                     'n': int(sr * rng.choice([.033, .05, .05, .1, .1, .25] if rng.random() < .97
                                      else [2.5])) +
                     rng.randrange(200) if kind != 'short' else
                     rng.choice([1, 100, int(sr * .019)]),
                     'fmt': rng.choice(['<i2'] * 4 + ['u1', '<i4', '<f4']),
                     'amp': rng.choice([1., 1., .01, 0.]),
                     'cmd': kind == 'cmdfail' or rng.random() < .5})
    if rng.random() < .2 and n > 1 and utts[0]['kind'] != 'short':
        # two utterances of the same length
        utts[1]['n'] = utts[0]['n']
    jobs = []
    for c in range(len(confs)):
        order = list(range(n))
        rng.shuffle(order)
        k = rng.choice([1, 1, 2, 3])
        parts = [order[i::k] for i in range(k)]
        if rng.random() < .2:
            parts.append(rng.sample(order, rng.randrange(1, n + 1)))
        if rng.random() < .1:
            parts[0] = parts[0] + parts[0][:1]
        for p in parts:
            if p:
                jobs.append({'conf': c, 'utts': p, 'stdin': rng.random() < .4})
    faults = []
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
        faults.append({'proc': f'j{rng.randrange(len(jobs))}.{rng.choice([0, 0, 0, 1])}',
                       'kind': rng.choice(HARD + SOFT * 2),
                       'pos': round(rng.random() * 1.02, 3),
                       'frac': round(rng.random(), 2), 'delay': 3600.})
    flaky = []
    cmds = [i for i, u in enumerate(utts) if u['cmd']]
    for _ in range(rng.choice([0, 0, 1, 2]) if cmds else 0):
        flaky.append({'utt': rng.choice(cmds), 'nth': rng.randrange(3),
                      'out': rng.choice(['full', 'full', 'partial', 'none']),
                      'code': rng.choice([1, 2, 127, -13, 141])})
    return {'confs': confs, 'utts': utts, 'jobs': jobs, 'faults': faults,
            'flaky': flaky,
            'stale': [i for i in range(n) if rng.random() < .15],
            'sched': {'mode': rng.choice(SCHEDS), 'change': .2}}


def shrink(plan):
    for i in range(len(plan['flaky'])):
        yield dict(plan, flaky=plan['flaky'][:i] + plan['flaky'][i + 1:])
    for i in range(len(plan['jobs']) - 1, -1, -1):
        if len(plan['jobs']) > 1:
            last = f'j{len(plan["jobs"]) - 1}.'
            if i == len(plan['jobs']) - 1:
                yield dict(plan, jobs=plan['jobs'][:-1], faults=[
                    f for f in plan['faults'] if not f['proc'].startswith(last)])
        j = plan['jobs'][i]
        for k in range(len(j['utts'])):
            if len(j['utts']) > 1:
                q = dict(j, utts=j['utts'][:k] + j['utts'][k + 1:])
                yield dict(plan, jobs=plan['jobs'][:i] + [q] + plan['jobs'][i + 1:])
    if plan['stale']:
        yield dict(plan, stale=[])
    for c, conf in enumerate(plan['confs']):
        for k in [k for k in conf if k != 'srate']:
            q = {x: v for x, v in conf.items() if x != k} or {'srate': 16000}
            if q != conf:
                yield dict(plan, confs=plan['confs'][:c] + [q] + plan['confs'][c + 1:])


def audio(u, sr):
    'Bytes of the WAV file of an utterance (None: there is none).'
    if u['kind'] == 'missing':
        return None
    if u['kind'] == 'empty':
        return b''
    r = np.random.RandomState(u['seed'])
    if u['kind'] == 'garbage':
        return r.bytes(500)
    x = np.clip(r.randn(u['n']) * .2 + .3 * np.sin(np.arange(u['n']) *
                                                   r.uniform(.01, 1)), -1, 1)
    x *= u['amp']
    fmt = np.dtype(u['fmt'])
    if fmt.kind == 'u':
        x = (x * 127 + 128).astype(fmt)
    elif fmt.kind == 'i':
        x = (x * (2 ** (8 * fmt.itemsize - 1) - 1)).astype(fmt)
    else:
        x = x.astype(fmt)
    buf = io.BytesIO()
    wavfile.write(buf, sr if u['kind'] != 'rate' else (8000 if sr != 8000 else 16000), x)
    out = buf.getvalue()
    if u['kind'] == 'header':
        out = out[:30]
    elif u['kind'] == 'data':
        out = out[:44 + (len(out) - 44) // 2 + 1]
    return out


def reference(data, conf):
    'The features, written from the documented scheme, one frame at a time.'
    c = dict(DEFAULTS, **conf)
    sr, x = wavfile.read(io.BytesIO(data))
    x = x.astype(np.float64)
    x = x - x.mean()
    step, size = int(c['srate'] * c['framerate']), int(c['srate'] * c['window_len'])
    nfft = 1
    while nfft <= size:
        nfft *= 2
    frames = []
    start = 0
    win = np.hamming(size)
    while start + size <= len(x):
        f = x[start:start + size]
        prev = np.concatenate([f[:1], f[:-1]])
        frames.append(np.abs(np.fft.rfft((f - c['preemph'] * prev) * win, nfft))[:-1])
        start += step
    if not frames:
        return None
    spec = np.array(frames)
    if c['apply_fbank']:
        mel = lambda f: 1127 * np.log(1 + f / 700.)
        inv = lambda m: 700. * (np.exp(m / 1127.) - 1)
        pts = np.linspace(mel(c['cutoff_lfreq']), mel(c['cutoff_hfreq']),
                          c['nfilters'] + 2)
        pts = np.floor(nfft * inv(pts) / c['srate'])
        bank = np.zeros((c['nfilters'], nfft // 2))
        for i in range(c['nfilters']):
            lo, mid, hi = pts[i:i + 3]
            for b in range(nfft // 2):
                if lo <= b <= mid:
                    bank[i, b] = (b - lo) / (mid - lo)
                if mid <= b <= hi and b != mid:
                    bank[i, b] = (hi - b) / (hi - mid)
        spec = spec @ bank.T
    logs = np.log(1e-6 + spec)
    norm = np.sqrt(2. / c['nfilters'])
    fea = logs
    if c['apply_dct']:
        k = np.arange(1, c['n_dct_coeff'] + 1)
        m = np.arange(c['nfilters']) + .5
        fea = logs @ np.cos(np.pi / c['nfilters'] * np.outer(m, k)) * norm
        fea = fea * (1 + c['lifter_coeff'] / 2 * np.sin(np.pi * k / c['lifter_coeff']))
    if c['add_energy']:
        fea = np.concatenate([logs.sum(1, keepdims=True) * norm, fea], 1)
    if c['apply_deltas']:
        parts = [fea]
        w = c['delta_winlen']
        for _ in range(c['delta_order']):
            prev = parts[-1]
            T = len(prev)
            d = np.zeros_like(prev)
            for t in range(T):
                for n in range(1, w + 1):
                    d[t] += n * (prev[min(t + n, T - 1)] - prev[max(t - n, 0)])
            parts.append(d / (4 * sum(n * n for n in range(1, w + 1))))
        fea = np.concatenate(parts, 1)
    if c['utt_mnorm']:
        fea = fea - fea.mean(0, keepdims=True)
    return fea


def stored(path):
    with expect(f'features {os.path.basename(path)}'):
        return np.load(io.BytesIO(L.read_bytes(path)))


def close(a, b, tol, outliers=False):
    '''With single precision audio the logarithm of a frequency bin without
    energy is mostly rounding error: such outliers are allowed.'''
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    ok = np.isclose(a, b, tol, tol, equal_nan=True)
    return bool(ok.all() or outliers and ok.mean() > .97
                and np.allclose(a, b, 1., 3., equal_nan=True))


def outname(uttid):
    return uttid if uttid.endswith('.npy') else uttid + '.npy'


def run(plan, ctx):
    utts = plan['utts']
    sr = plan['confs'][0].get('srate', 16000)
    data = [audio(u, sr) for u in utts]
    conf_text = [''.join(f'{k}: {str(v).lower()}\n' for k, v in c.items()) or '{}\n'
                 for c in plan['confs']]
    needed = sorted({(j['conf'], i) for j in plan['jobs'] for i in j['utts']})

    # What each utterance gives alone, read from a file, in a new process.
    want = {}
    with core.Scratch() as root, core.Sim(plan['seed'], root) as sim:
        for c, text in enumerate(conf_text):
            L.write(f'{root}/c{c}', text)
            os.makedirs(f'{root}/o{c}')
        for i, d in enumerate(data):
            if d is not None:
                L.write(f'{root}/{i}.wav', d)
        for c, i in needed:
            if utts[i]['kind'] == 'cmdfail':
                want[c, i] = None
                continue
            p = cli.beer(sim, f'alone{c}.{i}',
                         ['features', 'extract', f'{root}/c{c}', '-',
                          f'{root}/o{c}'], f'x{i} {root}/{i}.wav\n')
            out = f'{root}/o{c}/x{i}.npy'
            want[c, i] = None
            kind = utts[i]['kind']
            if kind == 'ok':
                check(p.ok, 'extraction-fails', lambda: f'{plan["confs"][c]} '
                      f'{utts[i]}: {p.error}\n{p.tb}')
            elif kind not in ('short', 'data'):
                check(not p.ok, 'success-without-audio', f'{kind} audio: the '
                      'command reported success')
            if p.ok:
                want[c, i] = stored(out)
                check(len(os.listdir(f'{root}/o{c}')) == 1, 'extra-output',
                      lambda: str(os.listdir(f'{root}/o{c}')))
                # (At other rates the tool places its filters as for 16 kHz.)
                if kind == 'ok' and sr == 16000:
                    ref = reference(data[i], plan['confs'][c])
                    check(ref.shape == want[c, i].shape, 'wrong-features',
                          lambda: f'shape {want[c, i].shape}, expected '
                          f'{ref.shape}, for {plan["confs"][c]}, {utts[i]}')
                    check(np.all(np.isfinite(want[c, i])) and
                          close(want[c, i], ref.astype(want[c, i].dtype),
                                1e-2 if utts[i]['fmt'] == '<f4' else 1e-5,
                                utts[i]['fmt'] == '<f4'), 'wrong-features',
                          lambda: f'differ by {np.abs(want[c, i] - ref).max()} '
                          f'from the documented scheme, for {plan["confs"][c]}, '
                          f'{utts[i]}')
                core._orig['remove'](out)
            else:
                check(not os.path.exists(out), 'features-of-unusable-audio',
                      lambda: f'{utts[i]}: {p.error}')
        ctx.absorb(sim)

    with core.Scratch() as root, core.Sim(plan['seed'], root, plan['sched'],
                                          plan['faults']) as sim:
        for c, text in enumerate(conf_text):
            L.write(f'{root}/c{c}', text)
            os.makedirs(f'{root}/o{c}')
            for i in plan['stale']:
                if want.get((c, i)) is not None:
                    np.save(f'{root}/o{c}/{outname(utts[i]["id"])}',
                            np.arange(4000.).reshape(500, 8))
        for i, d in enumerate(data):
            if d is not None:
                L.write(f'{root}/{i}.wav', d)
        ncalls, flakes = {}, {}

        def shell(p, cmd):
            word = next((w for w in cmd.split() if w.startswith(root)), None)
            if word is None or not os.path.exists(word):
                return 1, b'', b'no such file'
            i = int(os.path.basename(word)[:-4])
            out = L.read_bytes(word)
            if utts[i]['kind'] == 'cmdfail':
                return 1, out, b'failed'
            nth = ncalls.get(i, 0)
            ncalls[i] = nth + 1
            for f in plan['flaky']:
                if f['utt'] == i and f['nth'] == nth:
                    k = 'command:' + f['out']
                    sim.fault_fired[k] = sim.fault_fired.get(k, 0) + 1
                    flakes.setdefault(p.name, set()).add(i)
                    cut = {'full': len(out), 'partial': len(out) // 2, 'none': 0}
                    return f['code'], out[:cut[f['out']]], b'failed'
            return 0, out, b''
        sim.shell = shell

        def line(i):
            if utts[i]['cmd']:
                tool = ('cat {} |', 'sph2pipe -f wav {} |',
                        'sox -t wav {} -r 16000 -t wav - |')[utts[i]['seed'] % 3]
                return f'{utts[i]["id"]} {tool.format(f"{root}/{i}.wav")}\n'
            return f'{utts[i]["id"]} {root}/{i}.wav\n'

        def path(c, i):
            return f'{root}/o{c}/{outname(utts[i]["id"])}'

        todo = {k: list(j['utts']) for k, j in enumerate(plan['jobs'])}
        torn = set()                 # files a faulted job may have damaged
        for rnd in range(12):
            if not todo:
                break
            if rnd >= 3:
                sim.faults = []
            before = {(c, i): os.path.exists(path(c, i)) for c, i in needed}
            procs = {}
            for k, lst in todo.items():
                j = plan['jobs'][k]
                name = f'j{k}.{rnd}'
                text = ''.join(line(i) for i in lst)
                arg = '-'
                if not j['stdin']:
                    arg = f'{root}/list{k}'
                    L.write(arg, text)
                    text = ''
                sim.opcounts[name] = 7 * len(lst) + 4
                procs[k] = cli.spawn(sim, name, [
                    'features', 'extract', f'{root}/c{j["conf"]}', arg,
                    f'{root}/o{j["conf"]}'], text, key=name)
            sim.run()
            if len(procs) > 1 or any(len(x) > 1 for x in todo.values()):
                ctx.nontrivial = True
            again = {}
            wrote = {}
            for k, p in procs.items():
                c = plan['jobs'][k]['conf']
                for i in todo[k]:
                    wrote.setdefault((c, i), []).append(p)
            for key, ps in wrote.items():
                if any(p.tainted for p in ps):
                    torn.add(key)
                elif any(p.ok for p in ps):
                    torn.discard(key)
            for k, p in procs.items():
                c = plan['jobs'][k]['conf']
                bad = [i for i in todo[k] if want[c, i] is None]
                flaked = flakes.get(p.name, set())
                if p.fired or flaked:
                    ctx.nontrivial = True
                if p.ok:
                    check(not bad, 'success-without-audio', lambda: f'{utts[bad[0]]}'
                          f' (configuration {c}): the job reported success')
                    check(not flaked, 'success-after-failed-command', lambda:
                          f'{[f for f in plan["flaky"]]}')
                elif not p.tainted:
                    check(bad or flaked, 'job-fails', lambda: f'{p.error}\n{p.tb}')
                    ctx.probe('stopped by unusable audio')
                for i in todo[k]:
                    exists = os.path.exists(path(c, i))
                    if want[c, i] is None:
                        check(not exists, 'features-of-unusable-audio', lambda:
                              f'{utts[i]} stored by {p.cmd}')
                    elif (c, i) in torn:
                        # A job that completed alone vouches for its files.
                        ps = wrote[c, i]
                        if not (p.ok and all(q.ok for q in ps)):
                            continue
                        torn.discard((c, i))
                    if i in flaked and not before[c, i] and len(wrote[c, i]) == 1:
                        check(not exists or todo[k].count(i) > 1,
                              'features-of-failed-command',
                              lambda: f'{utts[i]} stored although its command '
                              'failed')
                    if want[c, i] is None:
                        continue
                    if p.ok:
                        check(exists, 'missing-features', lambda: f'{utts[i]}: '
                              f'job {p.name} succeeded')
                    if p.ok or (exists and not before[c, i]):
                        got = stored(path(c, i))
                        check(close(got, want[c, i], 1e-9), 'wrong-features',
                              lambda: f'{utts[i]["id"]} in list '
                              f'{[utts[x]["id"] for x in todo[k]]}: '
                              f'{got.shape} vs {want[c, i].shape} alone, '
                              f'{plan["confs"][c]}')
                        ctx.probe('utterances compared')
                if not p.ok:
                    rest = list(todo[k])
                    if bad and not p.tainted and not flaked:
                        rest = [i for i in rest if i not in bad]
                    if rest:
                        again[k] = rest
            allowed = {os.path.basename(path(c, i)) for c, i in needed}
            for c in range(len(conf_text)):
                names = set(os.listdir(f'{root}/o{c}')) - allowed
                check(not names, 'extra-output', str(sorted(names)))
            todo = again
        check(not todo, 'no-progress', lambda: f'jobs {todo} still fail without '
              'faults')
        ctx.absorb(sim)
        ctx.note(plan['confs'], [(u['kind'], u['fmt'], u['cmd']) for u in utts])
