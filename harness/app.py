"""Running an entry point as from the command line."""
import os
import sys

os.environ.pop('MARSH_FULL_ERROR', None)


class Sink:
    """Stands in for stdout and stderr."""

    def __init__(self):
        self.parts = []

    def write(self, text):
        self.parts.append(text)
        return 0

    def flush(self):
        return None

    def isatty(self):
        return False


class CommandLine:
    """sys.argv and the standard streams for the duration of a run."""

    def __init__(self, argv):
        self.argv = ['app', *argv]

    def __enter__(self):
        self.before = sys.argv, sys.stdout, sys.stderr
        self.out, self.err = Sink(), Sink()
        sys.argv, sys.stdout, sys.stderr = self.argv, self.out, self.err
        return self

    def __exit__(self, *a):
        sys.argv, sys.stdout, sys.stderr = self.before


def launch(app, argv, *args, **kwargs):
    """('returned', value) | ('exit', code) | ('raised', error)"""
    with CommandLine(argv):
        try:
            return 'returned', app(*args, **kwargs)
        except SystemExit as err:
            return 'exit', err.code
        except Exception as err:
            return 'raised', err
