"""The simulator: owns every scheduling, timing, delivery and fault decision.

Exactly one rank executes at a time; all others are parked inside a request.
One job = N ranks started together.  A job is a pure function of (code under
test, job description); the job description contains every seed.
"""
import os, sys, json, socket, struct, array, random, hashlib, re, signal, subprocess, time as _t, errno, pickle
import numpy as np

ADDR = re.compile(rb'0x[0-9a-f]+|(?<=Field )[0-9]+')

REQ = struct.Struct('<II6qQ')
REP = struct.Struct('<iI4qqqQ')
OP_COLL, OP_SEND, OP_RECV, OP_SENDRECV, OP_FS, OP_SLEEP, OP_NOTE, OP_EXIT, OP_ABORT, OP_PROBE, OP_UNIMPL, OP_MISMATCH, OP_YIELD, OP_FREE = range(1, 15)
OPN = ['', 'coll', 'send', 'recv', 'sendrecv', 'fs', 'sleep', 'note', 'exit', 'abort', 'probe', 'unimpl', 'mismatch', 'yield', 'free']
KN = ['', 'barrier', 'bcast', 'gather', 'scatter', 'allgather', 'alltoall', 'reduce', 'allreduce', 'split', 'dup', 'scan', 'exscan']
(K_BARRIER, K_BCAST, K_GATHER, K_SCATTER, K_ALLGATHER, K_ALLTOALL, K_REDUCE, K_ALLREDUCE, K_SPLIT, K_DUP, K_SCAN, K_EXSCAN) = range(1, 13)
FSN = ['', 'open_r', 'open_w', 'open_creat', 'stat', 'mkdir', 'unlink', 'rmdir', 'rename', 'read', 'write', 'trunc', 'close', 'close_r', 'opendir', 'fsync']
ACT_GO, ACT_FAIL, ACT_SHORT, ACT_TORN, ACT_DIE, ACT_FAILAFTER = range(6)
NS = 1000000000
EPOCH = 1700000000 * NS
LIBS = {'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1', 'NUMEXPR_MAX_THREADS': '1', 'NUMEXPR_NUM_THREADS': '1'}


class HarnessError(Exception):
    pass


class ZygoteServer:
    """A fork-server process, shared by all workers (one socket each)."""

    def __init__(self, lib, hashseed, perturb, pycache, nworkers):
        here = os.path.dirname(os.path.abspath(__file__))
        pairs = [socket.socketpair() for _ in range(nworkers)]
        r, w = os.pipe()
        env = {k: v for k, v in os.environ.items() if k in ('PATH', 'LANG', 'LC_ALL', 'SIM_DEBUG')}
        env.update(LIBS)
        env.update(LD_PRELOAD=lib, SIM_LIB=lib, PYTHONHASHSEED=str(hashseed), PYTHONPYCACHEPREFIX=pycache, MPLBACKEND='Agg', HOME=pycache)
        if perturb:
            env['MALLOC_PERTURB_'] = str(perturb)
        fds = [p[1].fileno() for p in pairs]
        self.proc = subprocess.Popen([sys.executable, os.path.join(here, 'zygote.py'), str(w), ','.join(map(str, fds))], env=env, pass_fds=fds + [w], stdin=subprocess.DEVNULL)
        os.close(w)
        for p in pairs:
            p[1].close()
        self.ready = r
        self.socks = [p[0] for p in pairs]

    def wait_ready(self):
        import select
        ok, _, _ = select.select([self.ready], [], [], 240)
        if not ok or os.read(self.ready, 1) != b'R':
            raise HarnessError('fork server failed to start')
        os.close(self.ready)

    def close(self):
        for s in self.socks:
            s.close()
        try:
            self.proc.wait(10)
        except Exception:
            self.proc.kill()


class Zygote:
    """One worker's connection to a fork server."""

    def __init__(self, sock):
        self.sock = sock
        self.buf = b''

    def _line(self):
        self.sock.settimeout(180)
        while b'\n' not in self.buf:
            d = self.sock.recv(65536)
            if not d:
                raise HarnessError('fork server died')
            self.buf += d
        l, self.buf = self.buf.split(b'\n', 1)
        return json.loads(l)

    def spawn(self, msg, fds):
        self.sock.sendmsg([json.dumps(msg).encode()], [(socket.SOL_SOCKET, socket.SCM_RIGHTS, array.array('i', fds))])
        return self._line()['pid']

    def reap(self, pid):
        self.sock.sendall(json.dumps({'cmd': 'reap', 'pid': pid}).encode())
        return self._line()['status']


class Rank:
    __slots__ = ('r', 'sock', 'pid', 'zyg', 'state', 'req', 'avail', 'done_at', 'result', 'code', 'buf', 'collseq', 'coll', 'prio', 'nfs', 'mono', 'lat', 'msg', 'ev')


class Coll:
    __slots__ = ('comm', 'seq', 'kind', 'root', 'op', 'dt', 'exp', 'contrib', 'time', 'done', 'sync', 'ids', 'result', 'order')


class Msg:
    __slots__ = ('src', 'dst', 'tag', 'data', 'id', 'time', 'consumed', 'claimed')


def pieces(b):
    out = []; i = 0; n = len(b)
    while i < n:
        l = struct.unpack_from('<Q', b, i)[0]; i += 8
        out.append(b[i:i + l]); i += l
    return out


def pack(ps):
    return b''.join(x for p in ps for x in (struct.pack('<Q', len(p)), p))


DTN = {(1, 1): 'i1', (1, 2): 'i2', (1, 4): 'i4', (1, 8): 'i8', (2, 1): 'u1', (2, 2): 'u2', (2, 4): 'u4', (2, 8): 'u8', (3, 4): 'f4', (3, 8): 'f8', (3, 16): 'g',
       (4, 8): 'c8', (4, 16): 'c16', (5, 1): '?', (6, 1): 'u1'}


def reduce_arrays(bufs, op, dt):
    code, size = dt // 256, dt % 256
    if (code, size) not in DTN:
        raise HarnessError('reduce on unsupported datatype %r' % ((code, size),))
    a = [np.frombuffer(b, dtype=DTN[(code, size)]) for b in bufs]
    r = a[0].copy()
    with np.errstate(all='ignore'):
        for x in a[1:]:
            if op == 1: r = r + x
            elif op == 2: r = np.maximum(r, x)
            elif op == 3: r = np.minimum(r, x)
            elif op == 4: r = r * x
            elif op == 5: r = np.logical_and(r, x)
            elif op == 6: r = np.logical_or(r, x)
            elif op == 7: r = r & x
            elif op == 8: r = r | x
            elif op == 9: r = np.logical_xor(r, x)
            elif op == 10: r = r ^ x
            else: raise HarnessError('reduce op')
            r = r.astype(a[0].dtype)
    return r.tobytes()


class JobResult(dict):
    __getattr__ = dict.get


class Job:
    """env keys: size, seed, policy, sync, clocks, faults, kill, stall, maxsteps, choices"""

    def __init__(self, sim, spec, env, scratch):
        self.sim, self.spec, self.env, self.scratch = sim, spec, env, scratch
        self.size = env.get('size', 1)
        sd = env.get('seed', 0)
        self.rng = random.Random('sched-%s' % sd)      # who runs next
        self.rlat = random.Random('lat-%s' % sd)       # delays and stalls
        self.rsem = random.Random('sem-%s' % sd)       # legal MPI freedoms
        self.now = 0                # simulated ns
        self.steps = 0
        self.comm_members = {0: list(range(self.size))}
        self.next_comm = 1
        self.colls = {}
        self.msgs = {}
        self.msgid = 0
        self.log = hashlib.sha256()
        self.sched_hash = hashlib.sha256()
        self.trace = []
        self.keep_trace = env.get('trace', False)
        self.notes = []
        self.stats = {}
        self.fs_counts = {}
        self.fault_hits = {}
        self.fs_ops = 0
        self.choices = []           # chosen index among ready ranks when >1
        self.forced = list(env.get('choices') or [])
        self.nchoice = 0
        self.faults = [dict(f) for f in env.get('faults', [])]
        for f in self.faults:
            f['_n'] = 0
        self.enospc = False
        self.status = None
        self.detail = None
        self.record_fs = env.get('record_fs', False)
        self.fslog = []
        self.cur_section = {}

    # ------------------------------------------------------------ clocks
    def clock(self, rk):
        c = (self.env.get('clocks') or [{}] * self.size)
        c = c[rk.r] if rk.r < len(c) else {}
        t = self.now
        if c.get('frozen'):
            real = c.get('skew', 0)
            mono = 0
        else:
            el = int(t * (1.0 + c.get('drift', 0.0)))
            real = el + int(c.get('skew', 0))
            for (at, d) in c.get('jumps', ()):
                if t >= at:
                    real += int(d)
                    if self.fault_hits.get(('jump', rk.r, at)) is None:
                        self.fault_hits[('jump', rk.r, at)] = 1
                        self.stat('fault.clock_jump')
            mono = el
        mono = max(mono, rk.mono); rk.mono = mono
        return EPOCH + real, 1000 * NS + mono

    def stat(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    # ------------------------------------------------------------ plumbing
    def reply(self, rk, status=0, v=(0, 0, 0, 0), data=b''):
        tr, tm = self.clock(rk)
        v = tuple(v) + (0,) * (4 - len(v))
        buf = REP.pack(status, 0, *v, tr, tm, len(data))
        rk.req = None
        rk.state = 'run'
        try:
            rk.sock.sendall(buf + data)
        except OSError:
            pass

    def readn(self, rk, n):
        chunks = []; got = 0
        while got < n:
            try:
                d = rk.sock.recv(n - got)
            except socket.timeout:
                d = None
            except OSError:
                d = b''
            if d is None:
                if self.cpu_time(rk) > self.sim.cpu_limit:
                    self.finish('stuck', 'rank %d consumed %.0fs CPU without reaching a synchronisation point' % (rk.r, self.sim.cpu_limit))
                    return None
                if self.sim.wall_exceeded():
                    raise HarnessError('rank %d made no progress in real time' % rk.r)
                continue
            if not d:
                return None
            chunks.append(d); got += len(d)
        return chunks[0] if len(chunks) == 1 else b''.join(chunks)

    def cpu_time(self, rk):
        try:
            f = open('/proc/%d/stat' % rk.pid).read().rsplit(')', 1)[1].split()
            base = getattr(self, '_cpu0', {}).get(rk.r, 0)
            return (int(f[11]) + int(f[12])) / os.sysconf('SC_CLK_TCK') - base
        except Exception:
            return 0

    def finish(self, status, detail=None):
        if self.status is None:
            self.status, self.detail = status, detail

    # ------------------------------------------------------------ main loop
    def run(self):
        sim, env = self.sim, self.env
        self.ranks = []
        logf = os.open(os.path.join(sim.tmp, 'rank.log'), os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
        prios = list(range(self.size)); self.rng.shuffle(prios)
        clocks = env.get('clocks') or []
        hs = env.get('hashseeds')
        try:
            for r in range(self.size):
                a, b = socket.socketpair()
                a.settimeout(5.0)
                rk = Rank()
                rk.r, rk.sock, rk.state, rk.req, rk.avail, rk.result, rk.code = r, a, 'run', None, 0, None, None
                rk.collseq, rk.coll, rk.prio, rk.nfs, rk.mono, rk.lat, rk.msg, rk.ev = {}, None, prios[r], 0, 0, 0, None, 0
                z = sim.zygotes[(hs[r] if hs else (r + env.get('seed', 0))) % len(sim.zygotes)]
                rk.zyg = z
                self.ranks.append(rk)
                tr, tm = self.clock(rk)
                tick = clocks[r].get('tick', 1000) if r < len(clocks) else 1000
                msg = dict(cmd='spawn', rank=r, size=self.size, prefix=self.scratch, cwd=env.get('cwd', self.scratch), seed=(env.get('seed', 0) * 1000003 + r * 7919 + 1) & 0x7fffffff,
                           treal=tr, tmono=tm, tick=tick, repo=sim.repo, spec=self.spec)
                rk.pid = z.spawn(msg, [b.fileno(), logf])
                b.close()
                self.get_request(rk)
                if self.status:
                    break
            while self.status is None:
                if not self.step():
                    break
                if sim.wall_exceeded():
                    raise HarnessError('wall budget exhausted inside a run')
        finally:
            os.close(logf)
            self.teardown()
        if self.status is None:
            self.status = 'ok'
        if self.status in ('died',):
            try:
                self.detail = (self.detail or '') + open(os.path.join(sim.tmp, 'rank.log'), errors='replace').read()[-6000:]
            except OSError:
                pass
        return JobResult(status=self.status, detail=self.detail, results=[rk.result for rk in self.ranks], codes=[rk.code for rk in self.ranks],
                         notes=self.notes, steps=self.steps, stats=self.stats, simtime=self.now, loghash=self.log.hexdigest(), schedhash=self.sched_hash.hexdigest(),
                         fs_counts=self.fs_counts, fs_ops=self.fs_ops, choices=self.choices, trace=self.trace, fslog=self.fslog, fs_per_rank=[rk.nfs for rk in self.ranks])

    def teardown(self):
        if os.environ.get('SIM_DEBUG') and self.status in ('deadlock', 'mismatch', 'steplimit'):
            for rk in self.ranks:
                if rk.code is None:
                    os.kill(rk.pid, signal.SIGUSR1); _t.sleep(0.2)
            print(open(os.path.join(self.sim.tmp, 'rank.log'), errors='replace').read())
        for rk in self.ranks:
            if hasattr(rk, 'pid') and rk.code is None:
                try:
                    os.kill(rk.pid, signal.SIGKILL)
                except OSError:
                    pass
        for rk in self.ranks:
            rk.sock.close()
            if hasattr(rk, 'pid'):
                rk.zyg.reap(rk.pid)

    def get_request(self, rk):
        """Let rank rk run until its next request (it is the only one running)."""
        while True:
            h = self.readn(rk, REQ.size)
            if h is None:
                if self.status is None:
                    rk.code = -1
                    rk.state = 'done'
                    if getattr(rk, 'ev', 0) == 'torn':
                        self.finish('killed', 'torn write then kill')
                    else:
                        self.finish('died', 'rank %d died unexpectedly: ' % rk.r)
                return
            op, kind, a0, a1, a2, a3, a4, a5, ln = REQ.unpack(h)
            data = self.readn(rk, ln) if ln else b''
            if data is None:
                data = b''
            if op == OP_NOTE:
                self.log.update(b'N%d' % rk.r + data)
                self.notes.append((self.steps, rk.r) + pickle.loads(data))
                continue
            if op == OP_FREE:
                continue
            if op == OP_EXIT:
                rk.result = pickle.loads(data); rk.code = a0; rk.state = 'done'
                # memory addresses in error messages are not part of the execution
                self.log.update(b'X%d,%d' % (rk.r, a0) + (ADDR.sub(b'', data) if a0 == 1 else data))
                if a0 == 1:
                    self.finish('exception', {'rank': rk.r, **(rk.result if isinstance(rk.result, dict) else {})})
                elif a0 == 2:
                    raise HarnessError('rank result not picklable: %r' % (rk.result,))
                return
            if op == OP_UNIMPL:
                raise HarnessError('MPI feature outside the simulator: %s' % data.decode())
            if op == OP_MISMATCH:
                self.finish('mismatch', 'rank %d: %s' % (rk.r, data.decode())); return
            if op == OP_ABORT:
                self.finish('abort', 'MPI_Abort(%d) on rank %d' % (a0, rk.r)); return
            rk.req = (op, kind, (a0, a1, a2, a3, a4, a5), data)
            rk.state = 'parked'
            self.post(rk)
            return

    # ------------------------------------------------------------ posting
    def latency(self, rk):
        e = self.env
        base = e.get('latency', 20000)
        l = int(base * (0.2 + self.rlat.expovariate(1.0))) if base else 0
        p = e.get('stall_p', 0)
        if p and self.rlat.random() < p:
            l += int(e.get('stall_ns', NS) * self.rlat.random()); self.stat('fault.stall')
        rs = e.get('slow')
        if rs and rk.r in rs:
            l *= 50; self.stat('fault.slow_rank_delay')
        return l

    def post(self, rk):
        op, kind, a, data = rk.req
        rk.lat = self.latency(rk)
        rk.avail = self.now + rk.lat
        if op == OP_COLL:
            comm = a[0]
            if comm not in self.comm_members:
                raise HarnessError('unknown communicator %d' % comm)
            seq = rk.collseq.get(comm, 0); rk.collseq[comm] = seq + 1
            c = self.colls.get((comm, seq))
            if c is None:
                c = Coll(); c.comm, c.seq, c.kind, c.root, c.op, c.dt, c.exp = comm, seq, kind, a[1], a[2], a[3], a[4]
                c.contrib = {}; c.time = 0; c.done = set(); c.ids = None; c.result = None
                m = self.env.get('sync', 'random')
                c.sync = True if m == 'sync' else False if m == 'eager' else self.rsem.random() < 0.5
                c.order = None
                self.colls[(comm, seq)] = c
            else:
                if (c.kind, c.root, c.op, c.dt, c.exp) != (kind, a[1], a[2], a[3], a[4]):
                    self.finish('mismatch', 'collective mismatch on communicator %d (members %s), operation #%d: rank %d calls %s(root=%d,op=%d,type=%d,bytes=%d) but another rank called %s(root=%d,op=%d,type=%d,bytes=%d)' %
                                (comm, self.comm_members[comm], seq, rk.r, KN[kind], a[1], a[2], a[3], a[4], KN[c.kind], c.root, c.op, c.dt, c.exp))
                    return
            c.contrib[rk.r] = pieces(data)
            c.time = max(c.time, self.now)
            rk.coll = c
            self.stat('coll.' + KN[kind])
        elif op == OP_SEND:
            m = Msg(); mem = self.comm_members[a[0]]
            m.src, m.dst, m.tag, m.data, m.time, m.consumed, m.claimed = a[5], a[1], a[2], data, rk.avail, False, False
            self.msgid += 1; m.id = self.msgid
            self.msgs.setdefault((a[0], a[1]), []).append(m)
            rk.msg = m
            self.stat('p2p')
        elif op == OP_SLEEP:
            rk.avail = self.now + a[0]
            self.stat('sleep')

    def match(self, comm, me, src, tag, msgid=0):
        """candidate messages for a receive (non-overtaking per source)"""
        q = self.msgs.get((comm, me), [])
        out = {}
        for m in q:
            if m.consumed:
                continue
            if msgid:
                if m.id == msgid: return [m]
                continue
            if m.claimed: continue
            if (src == -1 or m.src == src) and (tag == -1 or m.tag == tag) and m.src not in out:
                out[m.src] = m
        return list(out.values())

    def ready(self, rk):
        """(is ready, simulated completion time)"""
        op, kind, a, data = rk.req
        if op == OP_COLL:
            c = rk.coll; mem = self.comm_members[c.comm]
            full = len(c.contrib) == len(mem)
            if full:
                return True, max(rk.avail, c.time + rk.lat)
            if c.sync:
                return False, 0
            me = mem.index(rk.r)
            if kind == K_BCAST or kind == K_SCATTER:
                if me == c.root: return True, rk.avail
                if mem[c.root] in c.contrib: return True, rk.avail
            elif kind in (K_GATHER, K_REDUCE):
                if me != c.root: return True, rk.avail
            elif kind in (K_SCAN, K_EXSCAN):
                if all(m in c.contrib for m in mem[:me + 1]): return True, rk.avail
            return False, 0
        if op == OP_SEND:
            if a[4] == 2: return True, rk.avail
            if a[4] == 1 or self.env.get('rendezvous'):
                return rk.msg.consumed, rk.avail
            return True, rk.avail
        if op == OP_RECV:
            c = self.match(a[0], a[5], a[1], a[2], a[4])
            return bool(c), max(rk.avail, min([m.time for m in c], default=0))
        if op == OP_PROBE:
            if a[3]: return True, rk.avail
            c = self.match(a[0], a[5], a[1], a[2])
            return bool(c), max(rk.avail, min([m.time for m in c], default=0))
        return True, rk.avail

    # ------------------------------------------------------------ scheduling
    def pick(self, cand):
        if len(cand) == 1:
            return cand[0]
        pol = self.env.get('policy', 'des')
        cand.sort(key=lambda x: x[0].r)
        i = None
        if self.nchoice < len(self.forced):
            i = self.forced[self.nchoice] % len(cand)
        elif self.env.get('choices') is not None and pol == 'forced':
            i = 0
        elif pol == 'des' or pol == 'forced':
            i = min(range(len(cand)), key=lambda k: (cand[k][1], self.rng.random()))
        elif pol == 'random':
            i = self.rng.randrange(len(cand))
        elif pol == 'pct':
            if self.rng.random() < 0.01:
                rk = self.rng.choice(cand)[0]; rk.prio -= self.size; self.stat('sched.preempt')
            i = max(range(len(cand)), key=lambda k: cand[k][0].prio)
        elif pol == 'starve':
            v = self.env.get('victim', 0)
            oth = [k for k in range(len(cand)) if cand[k][0].r != v]
            i = self.rng.choice(oth) if oth and self.rng.random() < 0.995 else self.rng.randrange(len(cand))
        elif pol == 'run':
            # run one rank as long as possible
            last = self.choices[-1] if self.choices else 0
            i = next((k for k in range(len(cand)) if cand[k][0].r == getattr(self, 'lastr', 0)), None)
            if i is None or self.rng.random() < 0.02: i = self.rng.randrange(len(cand))
        else:
            i = 0
        self.nchoice += 1
        self.choices.append(i)
        return cand[i]

    def step(self):
        live = [rk for rk in self.ranks if rk.state != 'done']
        if not live:
            return False
        cand = []
        for rk in live:
            ok, t = self.ready(rk)
            if ok:
                cand.append((rk, t))
        if not cand:
            self.finish('deadlock', 'no rank can proceed: ' + '; '.join('rank %d %s' % (rk.r, self.describe(rk) if rk.state != 'done' else 'finished') for rk in self.ranks))
            return False
        self.steps += 1
        if self.steps > self.env.get('maxsteps', 400000):
            self.finish('steplimit', 'exceeded %d simulator steps' % self.steps)
            return False
        rk, t = self.pick(cand)
        self.lastr = rk.r
        self.now = max(self.now, t if self.env.get('policy', 'des') in ('des', 'forced') or len(cand) == 1 or rk.req[0] == OP_SLEEP else self.now + 1000)
        op, kind, a, data = rk.req
        kill = self.env.get('kill')
        if kill and self.match_kill(kill, rk):
            if kill.get('torn') is not None and op == OP_FS and kind == 10:
                rk.ev = 'torn'; self.stat('fault.kill_torn_write')
                n = int(a[0] * kill['torn'])
                self.reply(rk, 0, (ACT_TORN, n)); self.get_request(rk)
                return False
            self.stat('fault.kill')
            self.finish('killed', 'job killed before step %d (rank %d %s)' % (self.steps, rk.r, self.describe(rk)))
            return False
        self.sched_hash.update(b'%d,' % rk.r)
        self.log.update(b'%d:%d:%d:%d:%d:%d;' % (rk.r, op, kind, a[0], a[1] if op != OP_FS else 0, self.now) + (data if op != OP_COLL else hashlib.md5(data).digest()))
        if self.keep_trace:
            self.trace.append((self.steps, self.now, rk.r, self.describe(rk)))
        self.execute(rk)
        if self.status is None:
            self.get_request(rk)
        return self.status is None

    def match_kill(self, k, rk):
        if 'step' in k:
            return self.steps >= k['step']
        if 'fsop' in k:
            return rk.req[0] == OP_FS and self.fs_ops >= k['fsop']
        return False

    def describe(self, rk):
        if rk.req is None:
            return 'running'
        op, kind, a, data = rk.req
        if op == OP_COLL:
            return '%s#%d on comm %d%s' % (KN[kind], rk.coll.seq if rk.coll else -1, a[0], self.comm_members.get(a[0]))
        if op == OP_FS:
            return 'fs %s %s %d' % (FSN[kind], data.decode(errors='replace'), a[0])
        return '%s %s' % (OPN[op], list(a[:3]))

    # ------------------------------------------------------------ execution
    def execute(self, rk):
        op, kind, a, data = rk.req
        if op == OP_COLL:
            return self.exec_coll(rk)
        if op == OP_FS:
            return self.exec_fs(rk)
        if op == OP_RECV:
            c = self.match(a[0], a[5], a[1], a[2], a[4])
            m = c[0] if len(c) == 1 else c[self.rsem.randrange(len(c))]
            if len(c) > 1: self.stat('p2p.any_source_choice')
            m.consumed = True
            self.msgs[(a[0], a[5])] = [x for x in self.msgs[(a[0], a[5])] if x is not m]
            return self.reply(rk, 0, (m.src, m.tag), m.data)
        if op == OP_PROBE:
            c = self.match(a[0], a[5], a[1], a[2])
            if not c: return self.reply(rk, 1)
            m = c[self.rsem.randrange(len(c))]
            if a[4]: m.claimed = True
            return self.reply(rk, 0, (m.src, m.tag, len(m.data), m.id))
        return self.reply(rk)

    def exec_coll(self, rk):
        op, kind, a, data = rk.req
        c = rk.coll; mem = self.comm_members[c.comm]; me = mem.index(rk.r); n = len(mem)
        out = []; v = (0, 0, 0, 0)
        C = c.contrib
        if kind == K_BCAST:
            if me != c.root: out = [C[mem[c.root]][0]]
        elif kind == K_GATHER:
            if me == c.root: out = [C[m][0] for m in mem]
        elif kind == K_SCATTER:
            out = [C[mem[c.root]][me]]
        elif kind == K_ALLGATHER:
            out = [C[m][0] for m in mem]
        elif kind == K_ALLTOALL:
            out = [C[m][me] for m in mem]
        elif kind in (K_REDUCE, K_ALLREDUCE):
            if kind == K_ALLREDUCE or me == c.root:
                if c.result is None:
                    order = list(mem)
                    if self.env.get('reduce_shuffle', True): self.rsem.shuffle(order)
                    lens = {len(C[m][0]) for m in mem}
                    if len(lens) > 1:
                        return self.finish('mismatch', 'reduce with different lengths')
                    c.result = reduce_arrays([C[m][0] for m in order], c.op, c.dt)
                out = [c.result]
        elif kind in (K_SCAN, K_EXSCAN):
            k = me + 1 if kind == K_SCAN else me
            if k: out = [reduce_arrays([C[m][0] for m in mem[:k]], c.op, c.dt)]
        elif kind in (K_SPLIT, K_DUP):
            if c.ids is None:
                groups = {}
                for i, m in enumerate(mem):
                    color, key = struct.unpack('<qq', C[m][0])
                    groups.setdefault(color, []).append((key, i, m))
                c.ids = {}
                for color in sorted(groups):
                    if color == -32766:
                        continue
                    g = [m for _, _, m in sorted(groups[color])]
                    cid = self.next_comm; self.next_comm += 1
                    self.comm_members[cid] = g
                    for i, m in enumerate(g):
                        c.ids[m] = (cid, i, len(g))
            v = c.ids.get(rk.r, (-1, 0, 0)) + (0,)
        c.done.add(rk.r)
        if len(c.done) == n:
            del self.colls[(c.comm, c.seq)]
        rk.coll = None
        self.reply(rk, 0, v, pack(out))

    def exec_fs(self, rk):
        op, kind, a, data = rk.req
        name = FSN[kind]; path = data.decode(errors='replace')
        self.fs_ops += 1; rk.nfs += 1
        self.fs_counts[name] = self.fs_counts.get(name, 0) + 1
        if self.record_fs:
            self.fslog.append((self.fs_ops, self.steps, rk.r, name, path, a[0]))
        act, n = ACT_GO, 0
        for f in self.faults:
            if f.get('rank') is not None and f['rank'] != rk.r: continue
            if f.get('ops') and name not in f['ops']: continue
            if f.get('path') and not re.search(f['path'], path): continue
            if f.get('after_fs') is not None and self.fs_ops <= f['after_fs']: continue
            f['_n'] += 1
            hit = f['_n'] == f.get('nth', 1) or (f.get('persist') and f['_n'] > f.get('nth', 1) and f['_n'] - f.get('nth', 1) < f.get('count', 10**9))
            if hit:
                kindn = f.get('act', 'fail')
                if kindn == 'short' and name in ('write', 'read') and a[0] > 1:
                    act, n = ACT_SHORT, max(1, int(a[0] * f.get('frac', 0.5)))
                elif kindn == 'failafter': act, n = ACT_FAILAFTER, f.get('errno', errno.EIO)
                elif kindn == 'fail': act, n = ACT_FAIL, f.get('errno', errno.EIO)
                self.stat('fault.%s_%s_%s' % (kindn, name, errno.errorcode.get(f.get('errno', errno.EIO), '?') if kindn != 'short' else ''))
                self.notes.append((self.steps, rk.r, 'FAULT', name, path, kindn))
                break
        self.reply(rk, 0, (act, n))


class Sim:
    """One worker's simulator: connections to the fork servers + a temp dir."""

    def __init__(self, zygotes, repo, tmp):
        self.repo, self.tmp = repo, tmp
        os.makedirs(tmp, exist_ok=True)
        self.zygotes = zygotes
        self.cpu_limit = 60
        self.deadline = None
        self.njobs = 0
        self.total_steps = 0
        self.total_simtime = 0
        self.agg = {}
        self.scheds = set()
        self.case_jobs = []      # (status, event log hash) of the jobs of the current case
        self.shape = {}

    def wall_exceeded(self):
        return self.deadline is not None and _t.monotonic() > self.deadline

    def new_scratch(self, name='case'):
        import shutil
        d = os.path.join(self.tmp, name)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        return d

    def run(self, spec, env, scratch):
        j = Job(self, spec, env, scratch)
        r = j.run()
        self.case_jobs.append((r['status'], r['loghash']))
        self.njobs += 1; self.total_steps += r['steps']; self.total_simtime += r['simtime']
        for k, v in r['stats'].items():
            self.agg[k] = self.agg.get(k, 0) + v
        self.agg['status.' + r['status']] = self.agg.get('status.' + r['status'], 0) + 1
        if j.size > 1:
            self.scheds.add(r['schedhash'][:16])
        return r
