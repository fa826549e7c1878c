import sys, time
sys.path.insert(0, '/verif/sa')
sys.setrecursionlimit(6000)
import engine as E, scen
import importlib, glob, os
def main(prop, pat='', repo='/repo', tier='quick'):
    for f in sorted(glob.glob('/verif/sa/props_*.py')):
        importlib.import_module(os.path.basename(f)[:-3])
    prog = E.Program(repo + '/src')
    for sc in scen.REG:
        if prop in sc['props'] and pat in sc['name']:
            r = scen.run_scenario(prog, sc, prop, tier)
            print(f"{sc['name']}: paths {r.paths} ok {r.decided} undecided {r.undecided} bounded {r.bounded} obl {r.obligations} splits {r.splits} {r.wall:.1f}s")
            for k, v in list(r.reasons.items())[:6]: print('    ?', v, k)
            for v in r.violations[:3]: print('    VIOL', v['message'], '|', v['where']); print('       ', v['decisions'])
if __name__ == '__main__':
    main(*sys.argv[1:])
