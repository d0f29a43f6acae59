"""Running the real command line tool inside a simulated process."""
import io
import os
import sys
import types

from . import core

_code = None


def _entry():
    'A fresh module object holding the code of the `beer` script.'
    global _code
    path = os.path.join(core.REPO, 'beer', 'cli', 'beer')
    if _code is None:
        with core._orig['open'](path) as f:
            _code = compile(f.read(), path, 'exec')
    mod = types.ModuleType('beer_cli_entry')
    mod.__file__ = path
    exec(_code, mod.__dict__)
    return mod


def _warm_up():
    '''Trigger the imports that libraries put off until first use: they may
    draw identifiers or read files at a time that depends on history.'''
    import io
    import numpy as np
    import torch
    torch.einsum('ij,jk,kl->il', *[torch.ones(2, 2)] * 3)
    buf = io.BytesIO()
    torch.save({'a': torch.ones(2)}, buf)
    torch.load(io.BytesIO(buf.getvalue()))
    buf = io.BytesIO()
    np.savez(buf, a=np.ones(2))
    np.load(io.BytesIO(buf.getvalue()))['a']
    x = torch.ones(2, requires_grad=True)
    optim = torch.optim.Adam([x])
    (x ** 2).sum().backward()
    optim.step()
    torch.nn.Linear(2, 2)
    np.random.permutation(3)


def preload():
    'Import everything once, outside of any simulated process.'
    sys.dont_write_bytecode = True
    if core.REPO not in sys.path:
        sys.path.insert(0, core.REPO)
    import beer                                            # noqa
    import beer.cli.subcommands                            # noqa
    _warm_up()
    here = os.path.realpath(beer.__file__)
    if not here.startswith(os.path.realpath(core.REPO) + os.sep):
        raise core.HarnessError(f'beer imported from {here}')
    core.install()
    core._patch_parameters()
    _entry()
    core.slots()


def command(*argv):
    'Thunk running `beer <argv>` in the calling simulated process.'
    argv = [str(a) for a in argv]

    def run():
        sys.argv = ['beer'] + argv
        _entry().main()
    return run


def cmdkey(argv):
    'Name of the sub-command, used to size fault positions.'
    words = []
    skip = False
    for a in argv:
        a = str(a)
        if skip:
            skip = False
            continue
        if a == '-s' and not words:
            skip = True
            continue
        if a.startswith('-') and not words:
            continue
        words.append(a)
        if len(words) == 2:
            break
    return ' '.join(words)


def spawn(sim, name, argv, stdin='', **kw):
    kw.setdefault('key', cmdkey(argv))
    p = sim.spawn(name, command(*argv), stdin=stdin, **kw)
    p.cmd = [str(a) for a in argv]
    key = cmdkey(argv)
    sim.commands[key] = sim.commands.get(key, 0) + 1
    return p


def beer(sim, name, argv, stdin='', **kw):
    'Run one command to completion (other live procs may interleave).'
    p = spawn(sim, name, argv, stdin, **kw)
    sim.run()
    return p
