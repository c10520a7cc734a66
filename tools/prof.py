"""profile the proof attempt of one target: prof.py PID target [seconds]"""
import signal, traceback, sys, os, cProfile, pstats, tempfile, importlib, time
sys.path.insert(0, '/verif'); sys.dont_write_bytecode = True
from irv import driver, verify
pid, tn = sys.argv[1:3]
m = importlib.import_module('contracts.' + pid)
with tempfile.TemporaryDirectory() as wd:
    mods, nats = driver.prepare(m, wd, native=False)[:2]
    t = [t for t in m.TARGETS if t.name == tn][0]
    pr = cProfile.Profile()
    def onalrm(*a):
        print('--- stack'); print(''.join(l for l in traceback.format_stack() if 'expr.py' not in l)[-2500:]); signal.alarm(12)
    signal.signal(signal.SIGALRM, onalrm); signal.alarm(12)
    pr.enable()
    res, obls = verify.run_target(mods[getattr(t, 'modkey', 'm')], t, float(sys.argv[3]) if len(sys.argv) > 3 else 60)
    pr.disable(); signal.alarm(0)
print(res.unsupported, len(obls), res.wall)
for l in res.loops: print(l)
pstats.Stats(pr).sort_stats('cumtime').print_stats(45)
