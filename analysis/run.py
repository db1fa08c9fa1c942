import sys, os, importlib, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common
def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if tier not in ('quick', 'thorough'): tier = 'quick'
    R = common.Report(pid)
    dirs = common.extract()
    import q
    P = q.load(dirs)
    R.note('crates', sorted(set(P.crates)) if hasattr(P, 'crates') else [])
    R.note('functions_in_scope', sum(1 for b in P.bodies.values() if not str(b.get('path', '')).startswith('models::')))
    mod = importlib.import_module('checks.' + pid.lower())
    mod.run(P, R)
    return R.finish(tier, getattr(mod, 'LEVEL', 'other'), getattr(mod, 'EXPLAIN', ''))
rc = [2]
def t():
    try: rc[0] = main()
    except SystemExit as e: rc[0] = e.code if isinstance(e.code, int) else 2
    except BaseException:
        import traceback; traceback.print_exc(); rc[0] = 2
threading.stack_size(1 << 29)
th = threading.Thread(target=t); th.start(); th.join()
sys.stdout.flush(); sys.stderr.flush()
os._exit(rc[0])
