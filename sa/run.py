"""python3 -m sa.run <property> [--tier quick|thorough]"""
import argparse
import os
import sys
import traceback

from .project import AnalysisError, Project
from .report import Report

sys.setrecursionlimit(20000)


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--repo', default=None)
    a = ap.parse_args(argv)
    from .checks import REGISTRY
    fn, level, tech = REGISTRY[a.property]
    P = Project(a.repo)
    R = Report(a.property, a.tier)
    try:
        fn(P, R)
    except AnalysisError as e:
        # something the property is anchored to is gone: nothing can be said
        R.undecided(a.property + '.anchor', '', '%s: %s' % (type(e).__name__, e))
    except RecursionError as e:
        if os.environ.get('SA_DEBUG'):
            raise
        R.undecided(a.property + '.engine', '', 'analysis too deep: %s' % e)
    except Exception:
        if os.environ.get('SA_DEBUG'):
            raise
        R.undecided(a.property + '.engine', '', 'internal error of the analysis: ' + traceback.format_exc()[-600:])
    return R.finish(level, P, tech)


if __name__ == '__main__':
    sys.exit(main())
