"""Run a function in a forked child: a process state of its own."""
import os
import pickle


def forked(fn):
    """Run fn in a forked child; returns its (pickled) value."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            data = pickle.dumps(fn())
            with os.fdopen(w, 'wb') as fh:
                fh.write(data)
            code = 0
        except BaseException:
            import traceback
            traceback.print_exc()
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as fh:
        data = fh.read()
    _, st = os.waitpid(pid, 0)
    if st != 0 or not data:
        raise RuntimeError(f'child failed with status {st}')
    return pickle.loads(data)
