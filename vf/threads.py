"""Running functions in threads that switch often."""
import sys
import threading

from vf.core import HarnessError


def together(funcs):
    """Run the functions at the same time; returns their results, or raises what one of them raised."""
    results, trouble = [None] * len(funcs), []
    start = threading.Barrier(len(funcs))

    def run(n):
        try:
            start.wait(20)
            results[n] = funcs[n]()
        except BaseException as e:
            trouble.append(e)
    threads = [threading.Thread(target=run, args=(n,), daemon=True) for n in range(len(funcs))]
    old = sys.getswitchinterval()
    sys.setswitchinterval(2e-6)
    try:
        for t in threads:
            t.start()
        for t in threads:
            t.join(60)
    finally:
        sys.setswitchinterval(old)
    if any(t.is_alive() for t in threads):
        raise HarnessError('threads do not end')
    if trouble:
        raise trouble[0]
    return results
