"""Builds the IR harness from /repo's working tree; native calls for replay and translator validation."""
import ctypes
import glob
import multiprocessing as mp
import os
import shutil
import signal

import common


def build(name='ll', prepare=None):
    d = os.path.join(common.WORK, name)
    with common.lock(name):
        common.sync(os.path.join(common.VERIF, 'harness', name), d)
        if prepare:
            prepare(d)
        shutil.copy(os.path.join(common.REPO, 'Cargo.lock'), os.path.join(d, 'Cargo.lock'))
        for f in glob.glob(os.path.join(d, 'target/release/deps/*.ll')):
            b = os.path.basename(f)
            if b.startswith(('bn_254-', 'zkstd-', 'grumpkin-', 'llh')):
                os.remove(f)
        for n in ('bn_254', 'zkstd', 'grumpkin', 'llh'):
            for f in glob.glob(os.path.join(d, 'target/release/.fingerprint/%s-*' % n.replace('_', '-'))):
                shutil.rmtree(f)
        common.cargo(d, ['build', '--release'], rustflags='--emit=llvm-ir,link -C no-prepopulate-passes -Z share-generics=n')
    fs = [f for f in glob.glob(os.path.join(d, 'target/release/deps/*.ll'))
          if os.path.basename(f).startswith(('bn_254-', 'zkstd-', 'grumpkin-', 'llh', 'parity_scale_codec-', 'subtle-', 'ff-', 'byte_slice_cast-'))]
    so = os.path.join(d, 'target/release/libllh.so')
    return fs, so


class Native:
    """runs wrapper functions of the natively compiled library in forked children"""

    def __init__(self, so):
        self.so = so

    def batch(self, calls, timeout=60, stack=64 << 20):
        """calls: list of (fn, [arg], outsize, ret).  arg: bytes (passed by pointer) or int; outsize: bytes of an
        out pointer placed last (0: none, -1: Vec returned through a leading sret pointer, element size in ret)
        -> list of (ret, outbytes) | 'crash' | 'timeout'"""
        out = []
        ctx = mp.get_context('fork')
        while len(out) < len(calls):
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=self._child, args=(calls[len(out):], b, stack))
            p.start()
            b.close()
            import time
            t = time.time()
            status = 'crash'
            got = 0
            n = len(calls) - len(out)
            while got < n:
                if a.poll(max(0.01, timeout - (time.time() - t))):
                    try:
                        out.append(a.recv())
                        got += 1
                        t = time.time()
                    except EOFError:
                        break
                elif time.time() - t >= timeout:
                    status = 'timeout'
                    break
            p.kill()
            p.join()
            a.close()
            if got < n:
                out.append(status)
        return out

    def call(self, *c, **kw):
        return self.batch([c], **kw)[0]

    def _child(self, calls, conn, stack):
        import faulthandler
        faulthandler.disable()
        devnull = os.open('/dev/null', os.O_WRONLY)
        os.dup2(devnull, 2)
        lib = ctypes.CDLL(self.so)
        import threading
        threading.stack_size(stack)

        def go():
            for fn, args, osz, rt in calls:
                f = getattr(lib, fn)
                av = []
                keep = []
                if osz < 0:
                    sret = ctypes.create_string_buffer(24)
                    av.append(ctypes.cast(sret, ctypes.c_void_p))
                for x in args:
                    if isinstance(x, (bytes, bytearray)):
                        bf = ctypes.create_string_buffer(bytes(x), max(1, len(x)))
                        keep.append(bf)
                        av.append(ctypes.cast(bf, ctypes.c_void_p))
                    else:
                        av.append(ctypes.c_uint64(x))
                ob = None
                if osz > 0:
                    ob = ctypes.create_string_buffer(osz)
                    av.append(ctypes.cast(ob, ctypes.c_void_p))
                f.restype = ctypes.c_uint8 if (rt and osz >= 0) else None
                r = f(*av)
                if osz < 0:
                    w = [int.from_bytes(sret.raw[8 * i:8 * i + 8], 'little') for i in range(3)]
                    # Vec fields are pointer, capacity and length in some order: the pointer is the big one
                    ptr = max(w)
                    ln = min(x for x in w)
                    # length <= capacity; both follow or precede the pointer
                    conn.send((None, ctypes.string_at(ptr, ln * (rt or 1)) if ln else b''))
                else:
                    conn.send((r if rt else None, ob.raw if ob is not None else b''))
        t = threading.Thread(target=go)
        t.start()
        t.join()
        conn.close()
        os._exit(0)


def le(v, n):
    return int(v).to_bytes(n, 'little')
