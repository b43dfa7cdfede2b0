"""Entry point: main.py <property id> | setup | list"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import core  # noqa: E402

sys.path.insert(0, os.path.join(core.REPO, 'src'))


def main():
    arg = sys.argv[1] if len(sys.argv) > 1 else 'list'
    names = sorted(n[:-3].upper() for n in os.listdir(os.path.join(HERE, 'props'))
                   if n.startswith('c') and n.endswith('.py'))
    # The library derives its locale path from argv[0]; keep it away from /verif.
    sys.argv = [os.path.join(core.REPO, 'src', 'x.py')]
    if arg == 'list':
        print('\n'.join(names))
        return 0
    if arg == 'setup':
        import locale
        locale.setlocale(locale.LC_ALL, '')
        import pywriter  # noqa: F401
        os.makedirs(os.path.join(core.VERIF, 'evidence'), exist_ok=True)
        print('ready:', ' '.join(names))
        return 0
    return core.run_check(arg.upper())


if __name__ == '__main__':
    code = main()
    sys.stdout.flush()
    sys.stderr.flush()
    sys.exit(code)
