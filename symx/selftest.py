"""setup_cmd: the tools are there, marsh loads rewritten, and a false claim is refuted."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    r = subprocess.run([sys.executable, '-m', 'symx.runner', 'ST', '--budget', '60'], cwd=HERE,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    for p in ('evidence/ST.json',):
        try:
            os.remove(os.path.join(HERE, p))
        except FileNotFoundError:
            pass
    if r.returncode != 1 or 'VIOLATION property=ST' not in r.stdout:
        print(r.stdout[-3000:])
        print('selftest FAILED: the false claim was not refuted')
        return 1
    print('selftest ok')
    return 0


if __name__ == '__main__':
    sys.exit(main())
