"""A second process, in another configuration, that runs cases on request."""
import json
import os
import pickle
import struct
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))


def read(f, n):
    data = b''
    while len(data) < n:
        got = f.read(n - len(data))
        if not got:
            raise EOFError
        data += got
    return data


def receive(f):
    return read(f, struct.unpack('<Q', read(f, 8))[0])


def send(f, data):
    f.write(struct.pack('<Q', len(data)) + data)
    f.flush()


class Peer:

    def __init__(self, cfg, scen):
        env = dict(os.environ,
                   PURE_PYTHON='1' if cfg.startswith('pure') else '0')
        env.pop('ZOPE_WATCH_CHECKERS', None)
        env.pop('PYTHONMALLOC', None)
        if '-watch' in cfg:
            env['ZOPE_WATCH_CHECKERS'] = cfg[-1]
        self.p = subprocess.Popen(
            [sys.executable, os.path.join(HERE, 'peer.py'), scen], env=env,
            stdin=subprocess.PIPE, stdout=subprocess.PIPE)

    def ask(self, case):
        send(self.p.stdin, json.dumps(case).encode())
        ok, answer = pickle.loads(receive(self.p.stdout))
        if not ok:
            raise RuntimeError('peer: ' + answer)
        return answer

    def close(self):
        self.p.kill()
        self.p.wait()


def main():
    out = os.fdopen(os.dup(1), 'wb')
    os.dup2(2, 1)
    import resource
    import traceback
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    sys.setrecursionlimit(1500)
    import boot  # noqa: F401
    import scen
    mod = scen.load(sys.argv[1])
    while True:
        try:
            case = json.loads(receive(sys.stdin.buffer))
        except EOFError:
            os._exit(0)
        try:
            answer = True, mod.answer(case)
        except Exception:
            answer = False, traceback.format_exc()
        send(out, pickle.dumps(answer))


if __name__ == '__main__':
    main()
