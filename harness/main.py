"""Entry point: python harness/main.py <property-id> [quick|thorough]"""
import importlib
import os
import sys
import traceback

if len(sys.argv) > 2:
    os.environ['VERIF_TIER'] = sys.argv[2]
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib  # noqa

prop = sys.argv[1]
mod = importlib.import_module('p_' + prop.lower())
try:
    rc = mod.main()
except lib.TLCError as e:
    print('MACHINERY-ERROR', prop, e)
    rc = 2
except Exception as e:
    traceback.print_exc()
    frames = traceback.extract_tb(e.__traceback__)
    if any(f.filename.startswith(lib.REPO + os.sep) for f in frames):
        # the code under test raised where no behaviour of the specification
        # has an error: a rejected (one-event) history
        rc = lib.finish(prop, [{'trace': 0, 'event': 1, 'module': 'driver', 'clause':
                                'the implementation raised %s: %s' % (type(e).__name__, str(e)[:200]),
                                'observed': {'op': 'exception', 'where': str(frames[-1])}}], 'model_checking', 'aborted')
    else:
        rc = 2
sys.stdout.flush()
sys.exit(rc)
