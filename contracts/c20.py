"""C20: work distribution evaluates every agent exactly once, results in order"""
from .c19 import *
PRELOAD = ["yuca.cmaes"]

class Arms:
    """the communicator seen by the coordinator. What was sent is recorded in order; a worker answers the job it was sent
    with what the contract of `arm` says: one fitness and one proportion per index of the job, in that order"""
    def __init__(self, run): self.run, self.sent = run, VList()
    def send(self, obj, dest=None, **k):
        if k: raise Unsupported(f"comm.send({', '.join(k)})")
        self.sent.append((dest, obj))
    def recv(self, source=None, **k):
        h = self.run.h
        if source is None or k: raise Unsupported("comm.recv without a source")
        p = A.canon_int(R.sub(unwrap(source), 1))
        dest, (params, idx, seed) = self.sent.item(p)
        h.eq(dest, source, "the job answered is that of the worker asked")
        n, item = idx.__vc_symseq__() or (len(idx), lambda k: idx[k])
        v = unwrap(self.run.v)
        return (VList.sym(n, lambda k: S(self.run.f((v, unwrap(item(k)))))), VList.sym(n, lambda k: S(self.run.alive((v, unwrap(item(k)))))))

def split(h):
    """workers W >= 2 and population P = b q + r over b = W - 1 arms (any P >= 1, b >= 1 can be written so)"""
    b, q, r = h.int("arms", 1), h.int("q", 0), h.int("r", 0)
    h.assume(r < b)
    P = wrap(A.canon_int(R.add(R.mul(b.r, q.r), r.r)))
    h.assume(P >= 1)
    lemma = wrap(R.eq(R.idiv(P.r, b.r), q.r))
    h.ensure(lemma, "lemma: the quotient of bq + r by b is q"); h.assume(lemma)
    lemma = wrap(R.eq(R.trunc(R.div(R.to_real(P.r), R.to_real(b.r))), q.r))
    h.ensure(lemma, "lemma: so is the integer part of the fraction"); h.assume(lemma)
    start = lambda k: R.add(R.mul(k, q.r), R.ite(R.lt(k, r.r), k, r.r))       # first agent of the k-th arm
    return b, q, r, P, wrap(A.canon_int(R.add(b.r, 1))), start
@contract("C20", "mantle with workers", ["yuca.cmaes.CMAES.mantle"])
def _(h):
    b, q, r, P, W, start = split(h)
    seed = h.int("seed", 1); gens = h.int("generations", 1); h.c.exact_loops = True
    run = Run(h, P, W, gens, seed)
    comm = Arms(run); m = cm(); m.comm, m.num_worker, m.rank = comm, W, 0
    h.c.loop_candidates = [lambda j: R.ite(R.lt(j, r.r), R.sub(r.r, j), 0), start, lambda j: R.ite(R.lt(j, r.r), j, r.r)]
    def lists():
        v = unwrap(run.v)
        return [(start, lambda k: S(run.f((v, k)))), (start, lambda k: S(run.alive((v, k))))]
    h.c.list_candidates = lists
    step = run.step
    def stepped(kind, fl):
        g = v = unwrap(run.v)
        jobs = comm.sent
        with h.scope():
            k, = h.skolems((b,))
            dest, (params, idx, sd) = jobs.item(A.canon_int(k))
            h.eq(dest, wrap(R.add(k, 1)), "the k-th job of a generation goes to the k-th worker")
            h.eq(sd, wrap(R.mul(g, seed.r)), "with the seed of the generation")
            n, item = idx.__vc_symseq__() or (len(idx), lambda i: idx[i])
            h.eq(wrap(n), wrap(R.sub(start(R.add(k, 1)), start(k))), "job sizes differ by at most one: q or q + 1 agents")
            i = R.fresh_int("i"); h.c.assume(R.and_(R.ge(i, 0), R.lt(i, n)))
            h.eq(item(i), wrap(R.add(start(k), i)), "a job is the next contiguous slice of the population")
            h.eq(wrap(params.length()), P, "every worker gets the parameters of the whole population")
            a, d = h.skolems((P, run.D))
            h.ensure(wrap(R.eq(params[wrap(a)].reader()((d,)), run.xr((a, d)))), "in population order")
        h.eq(wrap(jobs.length()), wrap(b.r), "one job per worker and generation")
        h.ensure(wrap(R.eq(start(b.r), P.r)), "the slices cover the population")
        jobs.clear()
        step(kind, fl)
    run.step = stepped
    h.call("mantle", run.o.mantle)
    run.finish(gens)
    h.eq(wrap(comm.sent.length()), wrap(b.r), "one termination message per worker")
    with h.scope():
        k, = h.skolems((b,))
        dest, msg = comm.sent.item(A.canon_int(k))
        h.eq(dest, wrap(R.add(k, 1)), "termination of the k-th worker")
        h.ensure(isinstance(msg, tuple) and len(msg) == 3 and unwrap(msg[0]) == 0, "a termination message has 0 for parameters")

class Coordinator:
    """the communicator seen by a worker: a script of messages, and what it sent back"""
    def __init__(self, msgs): self.msgs, self.out = list(msgs), []
    def recv(self, source=None, **k):
        if source != 0: raise Unsupported("recv from someone other than the coordinator")
        if not self.msgs: raise RuntimeError("the worker asks for another job after it was told to stop")
        return self.msgs.pop(0)
    def send(self, obj, dest=None, **k): self.out.append((dest, obj))
for jobs in (0, 1, 2):
    @contract("C20", f"arm, {jobs} job{'s' * (jobs != 1)}", ["yuca.cmaes.CMAES.arm", "yuca.cmaes.CMAES.reset", "yuca.cmaes.CMAES.initialize_population"], bounded="a worker that gets at most two jobs" if jobs > 1 else None)
    def _(h, jobs=jobs):
        o, P, D, n, ex, s = fresh_state(h, False); s.__class__ = Plain
        o.replicates = h.int("replicates", 1)
        fit = h.reader("fit", 2); alive = h.reader("alive", 2)
        msgs, want = [], []
        for g in range(jobs):
            # any population size, any selection of its agents
            Q, m = h.int(f"Q{g}", 1), h.int(f"n{g}", 0); ir = h.reader(f"idx{g}", 1, kind='i')
            x = h.ndarray(f"params{g}", (Q, D)); xr = x.reader()
            C.FACT_DECLS[f"idx{g}"] = (lambda Q: lambda t: [R.and_(R.ge(t, 0), R.lt(t, Q.r))])(Q)
            sd = h.int(f"seed{g}")
            msgs.append((VList.sym(Q.r, (lambda x: lambda k: x[wrap(k)])(x)), VList.sym(m.r, (lambda ir: lambda k: S(ir((k,))))(ir)), sd))
            want.append((Q, m, ir, xr, sd))
        msgs.append((0, 0, 0))
        comm = Coordinator(msgs); mm = cm(); mm.comm, mm.rank, mm.num_worker = comm, 1, 2
        cur_ = lambda: len(comm.out)
        def get_fitness(a, steps=10, replicates=1, seed=13):
            g = cur_(); Q, m, ir, xr, sd = want[g]
            h.equals(o.population[a].get_params(), (D,), lambda i: xr((unwrap(a), i[0])), "the agent evaluated carries the parameters it was sent")
            h.eq(seed, sd, "evaluated with the seed of the job"); h.eq(replicates, o.replicates, "with the configured replicates")
            return S(fit((g, unwrap(a)))), S(alive((g, unwrap(a))))
        o.get_fitness = get_fitness
        h.call("arm", o.arm)
        h.ensure(len(comm.msgs) == 0, "every message is read"); h.ensure(len(comm.out) == jobs, "one answer per job, none to the termination message")
        for g in range(min(jobs, len(comm.out))):
            dest, res = comm.out[g]; Q, m, ir, xr, sd = want[g]
            h.ensure(dest == 0, "answers go to the coordinator")
            h.ensure(isinstance(res, tuple) and len(res) == 2, "an answer holds fitness values and proportions")
            for r, f, nm in ((res[0], fit, "fitness values"), (res[1], alive, "proportions")):
                h.eq(wrap(r.length()), m, f"{nm}: one per agent of the job")
                if h.c.entails(R.eq(m.r, 0)): continue
                with h.scope():
                    k, = h.skolems((m,))
                    h.eq(r[wrap(k)], S(f((g, ir((k,))))), f"{nm}: in the order of the job")
