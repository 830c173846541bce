"""Executes cases against the real code.  One case per input line, one
'@@RES {json}' line per case on the original stdout; everything the code
itself prints goes to /dev/null."""
import importlib
import json
import os
import sys
import warnings


def main():
    out = os.fdopen(os.dup(1), 'wb', 0)
    inp = os.fdopen(os.dup(0), 'rb')
    null = os.open(os.devnull, os.O_RDWR)
    os.dup2(null, 0)
    os.dup2(null, 1)
    if not os.environ.get('VERIF_DEBUG'):
        os.dup2(null, 2)
    os.set_inheritable(out.fileno(), False)
    from harness import sched
    sched.install()
    warnings.simplefilter('ignore')
    import logging
    logging.disable(logging.CRITICAL)
    import nephosem          # noqa: F401  (fail early)
    repo = os.environ['PYTHONPATH'].split(':')[0]
    assert os.path.realpath(nephosem.__file__).startswith(os.path.realpath(repo)), nephosem.__file__
    from harness import ops
    out.write(b'READY\n')
    for line in inp:
        case = json.loads(line)
        obs = ops.run(case)
        out.write(b'@@RES ' + json.dumps(obs).encode() + b'\n')


if __name__ == '__main__':
    main()
