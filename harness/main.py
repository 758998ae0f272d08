import importlib
import os
import sys
import traceback

REG = {}
for mod, props in {'p_chains': ['C01', 'C02', 'C03', 'C04', 'C05'],
                   'p_cache': ['C07'], 'p_files': ['C08'], 'p_store': ['C09', 'C10'],
                   'p_ini': ['C11', 'C12'], 'p_names': ['C13'], 'p_bounds': ['C14'], 'p_covmat': ['C15'], 'p_jobs': ['C16', 'C17'],
                   'p_grid': ['C18', 'C19'], 'p_select': ['C20'], 'p_maint': ['C21'], 'p_quant': ['C06'], 'p_fmt': ['C22'], 'p_stats': ['C23'], 'p_dens': ['C26'], 'p_plots': ['C27'], 'p_lookup': ['C28'], 'p_cmd': ['C29'],
                   }.items():
    for p in props:
        REG[p] = mod


def main():
    prop = sys.argv[1]
    from harness import core
    try:
        m = importlib.import_module('harness.' + REG[prop])
        rc = getattr(m, 'check_' + prop)()
    except core.CheckError as e:
        print('CHECK-ERROR %s: %s' % (prop, e))
        rc = 2
    except Exception:
        # an exception out of the code under test, for a use the specification allows, is a violation;
        # one of the machinery itself is not a verdict
        tb = traceback.format_exc()
        print(tb)
        frames = traceback.extract_tb(sys.exc_info()[2])
        if any(f.filename.startswith(core.REPO + '/') for f in frames) or '"%s/' % core.REPO in tb:    # (or in a worker process)
            c = core.Check(prop)
            c.violation('exception', 'the code raised an exception where it must not: ' + tb.strip().splitlines()[-1],
                        dict(traceback=tb))
            rc = c.finish()
        else:
            rc = 2
    sys.stdout.flush()
    os._exit(rc)


if __name__ == '__main__':
    main()
