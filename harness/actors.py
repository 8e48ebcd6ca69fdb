"""Processes running several threads ("actors") on command; replies arrive asynchronously on one pipe per process."""
import os
import queue
import select
import signal
import threading
import time

from core import HarnessError, set_pdeathsig
from procs import _os_close, _recv, _send
from streams import Raised


class ActorProcess(object):
    """make_handler() -> handler(actor, request), called in the actor's own thread."""

    def __init__(self, make_handler, nactors):
        a, b = os.pipe()
        c, d = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                set_pdeathsig()
                signal.setitimer(signal.ITIMER_REAL, 0)
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                _os_close(b)
                _os_close(c)
                self._child(a, d, make_handler, nactors)
            except BaseException:
                import traceback

                traceback.print_exc()
            finally:
                os._exit(3)
        _os_close(a)
        _os_close(d)
        self.pid, self.w, self.r = pid, b, c
        self.dead = False

    def _child(self, a, d, make_handler, nactors):
        handler = make_handler()
        queues = [queue.SimpleQueue() for _ in range(nactors)]
        out_lock = threading.Lock()

        def loop(i):
            while True:
                req = queues[i].get()
                try:
                    rep = handler(i, req)
                except Exception as e:
                    rep = Raised(e)
                with out_lock:
                    _send(d, (i, rep))

        for i in range(nactors):
            threading.Thread(target=loop, args=(i,), daemon=True).start()
        while True:
            try:
                i, req = _recv(a)
            except EOFError:
                os._exit(0)
            if i == "exit":
                os._exit(0)
            queues[i].put(req)

    def send(self, actor, req):
        _send(self.w, (actor, req))

    def kill(self, how="kill"):
        if self.dead:
            return
        self.dead = True
        try:
            if how == "kill":
                os.kill(self.pid, signal.SIGKILL)
            else:
                _send(self.w, ("exit", None))
            os.waitpid(self.pid, 0)
        except (ProcessLookupError, ChildProcessError):
            pass
        _os_close(self.w)
        _os_close(self.r)


def poll(processes, timeout):
    """[(process index, actor, reply)]"""
    alive = {p.r: i for i, p in enumerate(processes) if not p.dead}
    out = []
    ready = select.select(list(alive), [], [], timeout)[0]
    for fd in ready:
        try:
            actor, rep = _recv(fd)
        except EOFError:
            raise HarnessError("actor process %d died" % alive[fd])
        out.append((alive[fd], actor, rep))
    return out
