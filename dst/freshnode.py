"""A node in its own interpreter: freshnode.py REQUEST RESPONSE."""
import os
import pickle
import sys
import warnings


def main():
    req = pickle.load(open(sys.argv[1], 'rb'))
    sys.path[:0] = [os.environ['DST_VERIF']]
    warnings.simplefilter('ignore')
    from dst import ambient
    lib = ambient.shim()
    node = req['node']
    ambient.apply({k: v for k, v in node.items() if k not in ('env', 'tz', 'locale')}, req['dir'])
    import sunwhere     # noqa: F401
    import sunwhere.utils.datetime  # noqa: F401
    out = ambient.perform(req['sc'], lib, node)
    out['flags'] = (sys.flags.optimize, sys.flags.hash_randomization)
    with open(sys.argv[2], 'wb') as f:
        pickle.dump(out, f)


main()
