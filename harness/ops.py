"""Dispatch of cases to the real code."""
import importlib
import os
import shutil
import tempfile

from harness.canon import Bad

MODULES = ['ops_pipe', 'ops_files', 'ops_vocab', 'ops_matrix', 'ops_assoc', 'ops_dep', 'ops_cbc', 'ops_conf', 'ops_tok', 'ops_model']
_table = {}


def _load():
    if _table:
        return
    for name in MODULES:
        try:
            m = importlib.import_module('harness.' + name)
        except ModuleNotFoundError as e:
            if name in str(e):
                continue
            raise
        _table.update(m.OPS)


def run(case):
    _load()
    base = os.environ.get('VERIF_SCRATCH') or '/tmp'
    d = tempfile.mkdtemp(prefix='case', dir=base)
    cwd = os.getcwd()
    try:
        os.chdir(d)
        return {'st': 'ok', 'e': '', 'v': _table[case['op']](case, d)}
    except Bad as e:
        return {'st': 'bad', 'e': str(e)[:300], 'v': None}
    except KeyboardInterrupt:
        raise
    except BaseException as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if '/harness/' not in f.filename]
        return {'st': 'exc', 'e': type(e).__name__, 'm': str(e)[:300],
                'at': '%s:%s' % (os.path.basename(where[-1].filename), where[-1].name) if where else 'harness:%s' % tb[-1].lineno,
                'v': None}
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)
