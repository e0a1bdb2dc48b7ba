#!/usr/bin/env python3
"""check.py <property id>: decide one property on /repo's working tree."""
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
if os.environ.get('JV_PY') != '1':
    os.environ['JV_PY'] = '1'
    os.environ['PYTHONHASHSEED'] = '0'
    exe = PY if os.path.exists(PY) else sys.executable
    os.execv(exe, [exe, '-W', 'ignore', os.path.abspath(__file__)] + sys.argv[1:])

if len(sys.argv) > 2:
    os.environ['VERIF_TIER'] = sys.argv[2]
import common                                          # noqa: E402


def main():
    prop = sys.argv[1]
    run = common.Run(prop)
    try:
        jadn = common.load_jadn()
    except Exception:
        run.violation('import', {'trace': traceback.format_exc()[-1500:]})
        return run.finish()
    import registry
    try:
        registry.CHECKS[prop](run, jadn)
    except Exception as e:
        text = ''.join(traceback.format_exception(e))
        last = [x for x in text.split('\n') if x.startswith('  File "')]
        if not (last and common.SRC in text.split('The above exception')[0].rsplit('  File "', 1)[-1]):
            raise
        # the library itself failed where it must answer
        run.violation('crash', {'trace': text[-3000:]})
    return run.finish()


if __name__ == '__main__':
    sys.exit(main())
