"""Another process doing the same: reads requests from its standard input, answers each from a fork of itself."""

import json
import os
import random
import sys


def main():
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    from .scen import p17
    from .core import call
    import signal
    import gc
    out.write('ready\n')
    out.flush()
    for line in sys.stdin:
        request = json.loads(line)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            signal.alarm(55)
            try:
                answer = p17.answer(request)
            except BaseException as e:
                answer = {'error': repr(e)}
            with os.fdopen(w, 'w') as f:
                f.write(json.dumps(answer))
                f.flush()
            os._exit(0)
        os.close(w)
        with os.fdopen(r) as f:
            text = f.read()
        os.waitpid(pid, 0)
        out.write((text or json.dumps({'error': 'the process died'})) + '\n')
        out.flush()


if __name__ == '__main__':
    main()
