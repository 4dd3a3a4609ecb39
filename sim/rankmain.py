"""Entry point of every simulated rank (runs after fork, before importing dedalus)."""
import sys, os, pickle, traceback, random, ctypes, gc


class Ctx:
    """Handle a workload uses to talk to the simulator."""

    def __init__(self, lib, msg):
        self.lib = lib
        self.rank = msg['rank']
        self.size = msg['size']
        self.cwd = msg['cwd']
        self.prefix = msg['prefix']
        self.rng = random.Random(msg['seed'] ^ 0x5bd1e995)

    def note(self, *obj):
        b = pickle.dumps(obj, protocol=4)
        self.lib.sim_note(b, ctypes.c_uint64(len(b)))

    def fs(self, on):
        return self.lib.sim_fs_enable(int(on))

    def yield_(self, kind=0):
        return self.lib.sim_yield(kind)


def seed_identity_hashes(seed):
    """Give dedalus objects that inherit the identity hash a seeded one, so
    that set/dict-of-set iteration order is decided by the simulator and differs
    between ranks (as it does between real processes), instead of by ASLR."""
    import sys
    rng = random.Random(seed)
    import weakref
    seen = set()

    def install(cls):
        def __hash__(self):
            try:
                return object.__getattribute__(self, '_sim_hash')
            except AttributeError:
                h = rng.getrandbits(48)
                try:
                    object.__setattr__(self, '_sim_hash', h)
                except Exception:
                    return 7
                return h
        cls.__hash__ = __hash__

    for name, mod in sorted(sys.modules.items()):
        if not name.startswith('dedalus') or mod is None:
            continue
        for cname, cls in sorted(vars(mod).items()):
            if isinstance(cls, type) and cls.__module__.startswith('dedalus') and cls not in seen:
                seen.add(cls)
                try:
                    if cls.__hash__ is object.__hash__ and not issubclass(cls, type) and cls.__flags__ & (1 << 9) and cls.__dictoffset__ != 0:
                        install(cls)
                except Exception:
                    pass


def main(lib, msg):
    code, out = 0, None
    ctx = Ctx(lib, msg)
    if os.environ.get('SIM_DEBUG'):
        import faulthandler, signal
        faulthandler.register(signal.SIGUSR1, all_threads=False)
    try:
        ctx.yield_(1)
        from sim import workloads
        if msg['spec'].get('dedalus', True):
            import warnings
            warnings.simplefilter('ignore')
            import dedalus.public  # noqa
            import dedalus.extras.flow_tools, dedalus.tools.post, dedalus.core.distributor  # noqa
            seed_identity_hashes(msg['seed'] & 0xffffffff)
        out = workloads.dispatch(msg['spec'], ctx)
    except BaseException as e:
        code = 1
        out = {'exc': type(e).__name__, 'msg': str(e)[:500], 'tb': traceback.format_exc()[-6000:],
               'own': isinstance(e, workloads.SimUserError) if 'workloads' in locals() else False}
    finally:
        try:
            b = pickle.dumps(out, protocol=4)
        except BaseException as e:
            code = 2
            b = pickle.dumps({'exc': 'HarnessPickle', 'msg': repr(e), 'tb': traceback.format_exc()})
        sys.stdout.flush(); sys.stderr.flush()
        lib.sim_exit(code, b, ctypes.c_uint64(len(b)))
        os._exit(0)
