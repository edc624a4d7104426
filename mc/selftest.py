"""setup_cmd: nothing to build (pure Python); check that everything needed is
there and that the code under test can be imported from /repo."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core  # noqa: E402

core.import_ncdiff()
import lxml  # noqa: E402,F401
import ncclient  # noqa: E402,F401
import pyang  # noqa: E402,F401
for f in sorted(os.listdir(os.path.join(core.VERIF, 'mc', 'checks'))):
    if f.endswith('.py'):
        compile(open(os.path.join(core.VERIF, 'mc', 'checks', f)).read(), f,
                'exec')


def schedules():
    """The scheduler finds races of known outcome, and only those."""
    import threading
    import sched

    class Box(object):
        pass

    def outcomes(main, bound):
        got = set()

        def ex(prefix):
            s = sched.Sched(prefix, files=[os.path.abspath(__file__)])
            got.add(str(main(s)))
            return s
        sched.explore(ex, bound)
        return got

    def two(f, g):
        t = [threading.Thread(target=f), threading.Thread(target=g)]
        for x in t:
            x.start()
        for x in t:
            x.join()

    def counter(lock):
        def main(s):
            b = Box()
            b.n = 0
            lk = [None]

            def inc():
                if lk[0]:
                    lk[0].acquire()
                v = b.n
                b.n = v + 1
                if lk[0]:
                    lk[0].release()

            def go():
                lk[0] = threading.Lock() if lock else None
                two(inc, inc)
                return b.n
            box = s.run(go)
            return s.failure or box.get('value')
        return main
    assert outcomes(counter(False), 0) == {'2'}
    assert outcomes(counter(False), 1) == {'1', '2'}
    assert outcomes(counter(True), 2) == {'2'}

    def abba(s):
        def go():
            a, b = threading.Lock(), threading.Lock()

            def f():
                with a:
                    with b:
                        pass

            def g():
                with b:
                    with a:
                        pass
            two(f, g)
            return 'done'
        box = s.run(go)
        return type(s.failure).__name__ if s.failure else box.get('value')
    assert outcomes(abba, 0) == {'done'}
    assert outcomes(abba, 1) == {'done', 'Deadlock'}


schedules()
os.makedirs(core.EVIDENCE, exist_ok=True)
print('ok')
