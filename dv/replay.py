"""Replay one recorded failing input natively (real code, ASan+UBSan)."""
import sys, os, json, tempfile, shutil
from . import run
def main():
    rep = json.load(open(sys.argv[1]))
    inp = os.path.splitext(sys.argv[1])[0] + '.inputs'
    print('property %s, contract %s' % (rep['property'], rep['contract']))
    print('obligation: ' + rep['obligation'])
    if not os.path.exists(inp):
        print('no failing input recorded; verifier output:')
        print(json.dumps(rep['verifier'], indent=1)[:4000])
        return 0
    sys.path.insert(0, run.CONTRACTS)
    import index
    scratch = tempfile.mkdtemp(prefix='dv-replay-')
    try:
        spec = index.PROPS[rep['property']]
        for s in spec['units'] + spec.get('thorough_units', []):
            u = run.Unit(s, scratch, rep['tier'])
            if 'contracts/' + u.file != rep['contract_file'] or u.tag != rep.get('unit', u.tag):
                continue
            u.build_native()
            if u.nerr:
                print(u.nerr)
                return 2
            st, txt = run.native_replay(u, inp, os.path.join(scratch, 'out'))
            print(open(inp).read())
            print(txt)
            print('result: ' + {'ok': 'the obligation holds on this input', 'fail': 'FAILS', 'timeout': 'FAILS (does not terminate)', 'pre': 'input outside the precondition', 'err': 'replay error'}[st])
            return 1 if st in ('fail', 'timeout') else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
sys.exit(main())
