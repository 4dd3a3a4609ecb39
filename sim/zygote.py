"""Fork server: preloads heavy third-party modules (never dedalus), then forks
one process per simulated rank.  Run with LD_PRELOAD=libsim.so."""
import sys, os, json, socket, array, signal, gc

# heavy third-party imports shared by every rank
import numpy, scipy, scipy.sparse, scipy.sparse.linalg, scipy.linalg, scipy.special  # noqa
import scipy.fft, scipy.optimize, scipy.fftpack  # noqa
import h5py, xarray, numexpr, pickle, ctypes, logging, configparser, pathlib, shutil  # noqa
import tempfile, re, functools, itertools, collections, inspect, uuid, random, hashlib, traceback, glob, csv  # noqa
from mpi4py import MPI  # noqa
import h5py._hl  # noqa
# warm lazily-initialised library state so that every fork starts identically
numpy.linalg.solve(numpy.eye(3), numpy.ones(3)); scipy.fft.dct(numpy.ones(8)); scipy.sparse.linalg.splu(scipy.sparse.identity(3, format='csc'))
numpy.random.default_rng(0)

HERE = os.path.dirname(os.path.abspath(__file__))


def child(msg, fds):
    libc = ctypes.CDLL(None)
    libc.prctl(1, signal.SIGKILL)
    simfd, logfd = fds
    os.dup2(logfd, 1); os.dup2(logfd, 2)
    os.chdir(msg['cwd'])
    lib = ctypes.CDLL(os.environ['SIM_LIB'])
    c = ctypes
    lib.sim_attach.argtypes = [c.c_int, c.c_int, c.c_int, c.c_char_p, c.c_uint64, c.c_int64, c.c_int64, c.c_int64]
    lib.sim_yield.restype = c.c_int64
    lib.sim_attach(simfd, msg['rank'], msg['size'], msg['prefix'].encode(), msg['seed'] & (2**64 - 1),
                   msg['treal'], msg['tmono'], msg['tick'])
    random.seed(msg['seed'] & 0xffffffff)
    numpy.random.seed(msg['seed'] & 0xffffffff)
    sys.path.insert(0, msg['repo'])
    sys.path.insert(0, os.path.dirname(HERE))
    from sim import rankmain
    rankmain.main(lib, msg)


def main():
    import select
    gc.collect(); gc.freeze()
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    socks = {int(f): socket.socket(fileno=int(f)) for f in sys.argv[2].split(',')}
    ready = int(sys.argv[1])
    os.write(ready, b'R'); os.close(ready)
    poll = select.poll()
    for f in socks:
        poll.register(f, select.POLLIN)
    while socks:
        for fd, ev in poll.poll():
            sock = socks[fd]
            try:
                data, anc, flags, addr = sock.recvmsg(1 << 20, socket.CMSG_LEN(4 * array.array('i').itemsize))
            except ConnectionError:
                data = b''
            if not data:
                poll.unregister(fd); sock.close(); del socks[fd]
                continue
            fds = array.array('i')
            for lvl, typ, cd in anc:
                if lvl == socket.SOL_SOCKET and typ == socket.SCM_RIGHTS:
                    fds.frombytes(cd[:len(cd) - len(cd) % 4])
            msg = json.loads(data)
            if msg['cmd'] == 'spawn':
                pid = os.fork()
                if pid == 0:
                    try:
                        for s in socks.values():
                            s.close()
                        child(msg, list(fds))
                    except BaseException:
                        traceback.print_exc()
                    finally:
                        os._exit(96)
                for f in fds:
                    os.close(f)
                sock.sendall(json.dumps({'pid': pid}).encode() + b'\n')
            elif msg['cmd'] == 'reap':
                try:
                    pid, st = os.waitpid(msg['pid'], 0)
                except ChildProcessError:
                    st = -1
                sock.sendall(json.dumps({'status': st}).encode() + b'\n')


main()
