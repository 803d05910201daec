"""Spreads independent obligations over the cores: each worker analyses its own share and reports plain tuples."""
import os
import pickle
import select
import struct


def pmap(fn, items, n=None):
    """[fn(x) for x in items], computed by forked workers.  fn returns a picklable value."""
    items = list(items)
    n = min(n or os.cpu_count() or 1, 8, max(1, len(items)))
    if n == 1 or len(items) < 4:
        return [fn(x) for x in items]
    pipes = []
    for w in range(n):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                for q, _ in pipes:
                    os.close(q)
                with os.fdopen(wr, 'wb') as f:
                    for i in range(w, len(items), n):
                        b = pickle.dumps((i, fn(items[i])))
                        f.write(struct.pack('<I', len(b)))
                        f.write(b)
                        f.flush()
                code = 0
            except BaseException:
                import traceback
                traceback.print_exc()
            finally:
                os._exit(code)
        os.close(wr)
        pipes.append((r, pid))
    data = dict((r, []) for r, _ in pipes)
    live = set(data)
    while live:
        for r in select.select(list(live), [], [])[0]:
            b = os.read(r, 1 << 20)
            if b:
                data[r].append(b)
            else:
                live.discard(r)
                os.close(r)
    out = {}
    for r, pid in pipes:
        os.waitpid(pid, 0)
        d = b''.join(data[r])
        k = 0
        while k + 4 <= len(d):
            (m,) = struct.unpack('<I', d[k:k + 4])
            if k + 4 + m > len(d):
                break
            i, v = pickle.loads(d[k + 4:k + 4 + m])
            out[i] = v
            k += 4 + m
    return [out.get(i) for i in range(len(items))]
