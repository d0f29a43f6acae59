#!/opt/venv/bin/python
"""check.py <property> quick|thorough | replay FILE | selftest [property...]"""
import json
import os
import sys

ENV = {'PYTHONDONTWRITEBYTECODE': '1', 'OMP_NUM_THREADS': '1',
       'MKL_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1',
       'CUDA_VISIBLE_DEVICES': '', 'MPLBACKEND': 'Agg', 'LC_ALL': 'C.UTF-8'}
HERE = os.path.dirname(os.path.abspath(__file__))


def bootstrap():
    'Same interpreter settings whoever starts us.'
    if os.environ.get('BEERSIM_BOOT') != '1':
        env = dict(os.environ)
        env.update(ENV)
        env.setdefault('PYTHONHASHSEED', '0')
        env['BEERSIM_BOOT'] = '1'
        env.pop('PYTHONPATH', None)
        os.execve('/opt/venv/bin/python',
                  ['/opt/venv/bin/python', os.path.abspath(__file__)] + sys.argv[1:],
                  env)
    sys.dont_write_bytecode = True
    sys.path.insert(0, HERE)


def main(argv):
    bootstrap()
    from sim import core, cli, engine
    try:
        cli.preload()
        if argv[0] == 'replay':
            with open(argv[1]) as f:
                data = json.load(f)
            mod = engine.prop(data['property'])
            summary, viol, err = engine.in_child(mod, data['plan'])
            if err:
                print(f'HARNESS ERROR\n{err}')
                return 2
            if viol is None:
                print('replay: no violation')
                return 0
            print(f'replay: {viol["kind"]}: {viol["detail"]}')
            same = viol['kind'].split(' ')[0] == data['violation']['kind'].split(' ')[0]
            print('same class as recorded' if same else 'DIFFERENT from recorded')
            print(f'VIOLATION property={data["property"]} replay={argv[1]}')
            return 1
        if argv[0] == 'companion':
            from sim import companion
            return companion.serve()
        if argv[0] == 'selftest':
            from sim import selftest
            return selftest.main(argv[1:])
        tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
        seed = int(os.environ.get('VERIF_SEED', '1'))
        return engine.run_check(argv[0], tier, seed)
    except core.HarnessError as e:
        print(f'HARNESS ERROR {type(e).__name__}: {e}')
        return 2


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
