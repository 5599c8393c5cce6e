"""run <id> [quick|thorough] | run <id> replay FILE"""
import importlib, json, os, sys, traceback
sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(VERIF, 'lib'), os.path.join(VERIF, 'checks')]
import tv


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    mod = importlib.import_module(pid.lower())
    chk = tv.Check(pid, 'quick' if tier == 'replay' else tier, seed,
                   keep=bool(os.environ.get('VERIF_KEEP')))
    try:
        if tier == 'replay':
            r = json.load(open(sys.argv[3]))
            eps = chk.run(mod.FUNCS, [(r['key'], r['func'], r['params'])], procs=1)
            print(json.dumps(eps[0]['events'], indent=1)[:6000])
            chk.validate(r['spec'], eps)
        else:
            mod.main(chk)
        rc = chk.finish()
    except tv.Machinery as e:
        print('MACHINERY', e, file=sys.stderr)
        rc = 3
    except Exception:
        traceback.print_exc()
        rc = 4
    sys.stdout.flush()
    if rc > 1:
        chk.pool.shutdown(wait=False, cancel_futures=True)
        import shutil
        shutil.rmtree(chk.dir, ignore_errors=True)
    os._exit(rc)


main()
