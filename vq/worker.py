"""One worker process: python -m vq.worker {explore|replay} ... (started by vq.main)."""

import importlib
import io
import contextlib
import json
import os
import sys
import traceback
import warnings


def load(prop):
    return importlib.import_module('vq.props.' + prop.lower())


def find(mod, name):
    for sub in mod.SUBCHECKS:
        if sub.name == name:
            return sub
    raise KeyError(name)


def main(argv):
    out = argv[-1]
    result = {}
    devnull = open(os.devnull, 'w')
    warnings.simplefilter('ignore')
    try:
        import numpy as np
        np.seterr(all='ignore')
        from vq import core
        import qmeq
        tree = os.environ['VQ_TREE']
        if not os.path.abspath(qmeq.__file__).startswith(os.path.abspath(tree) + os.sep):
            raise RuntimeError('qmeq comes from ' + qmeq.__file__)
        with contextlib.redirect_stdout(devnull):
            if argv[0] == 'explore':
                prop, name, seed, ncases, budget, progress = argv[1:7]
                mod = load(prop)
                result = core.explore(prop, find(mod, name), int(seed), int(ncases), float(budget), progress)
            elif argv[0] == 'replay':
                with open(argv[1]) as f:
                    rep = json.load(f)
                mod = load(rep['property'])
                status, ctx, msg = core.run_case(find(mod, rep['subcheck']), rep['case'])
                result = dict(status=status, message=msg)
    except BaseException:
        result = dict(error=traceback.format_exc())
    with open(out, 'w') as f:
        json.dump(result, f)


if __name__ == '__main__':
    main(sys.argv[1:])
