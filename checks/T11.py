"""T11: evolution-strategies pools and workers."""
import vf.quiet  # noqa
import os
import sys
import tempfile
import types as pytypes
import multiprocessing as mp

for _n in ("torch.fb", "torch.fb.rendezvous", "torch.fb.rendezvous.zeus"):  # FB-internal rendezvous, unused by the code
    sys.modules.setdefault(_n, pytypes.ModuleType(_n))
import numpy as np
import torch

torch.fb = sys.modules["torch.fb"]
torch.fb.rendezvous = sys.modules["torch.fb.rendezvous"]
torch.fb.rendezvous.zeus = sys.modules["torch.fb.rendezvous.zeus"]
import torch.distributed as dist
from reagent.parameters import EvolutionParameters
from reagent.training.gradient_free.es_worker import EsWorker
from reagent.training.gradient_free.evolution_pool import EvolutionPool, OneMaxEvolutionPool

RULE = (
    "Random pools (seed, population, mutation power, learning rate, tensor shapes) replay random reward logs, some with "
    "all rewards equal. Individuals must be parent + power * noise, where the noise is reproduced from seed and iteration "
    "alone (a second pool at the same iteration that saw other RNG use gets identical noise), is unit normal in aggregate "
    "and differs between individuals and iterations; the parent must follow an independent numpy Adam on the reward-weighted "
    "sum of noises. Pools given the same log must stay bit-identical while the global RNG is disturbed between calls. Real "
    "worker processes (gloo over loopback) with worker-dependent rewards must apply the averaged reward: every worker ends "
    "with identical parents, equal to a single-process replay of the averaged log."
)
REQUIRED = {"iterations": 150, "equal_rewards": 15, "individuals": 500, "adam_steps": 80, "replicas": 100, "worker_runs": 2,
            "worker_epochs": 10, "noise_pairs": 1000, "noise_samples": 2000, "local_rewards": 200}


class Pool(EvolutionPool):
    """Reward: fixed linear score with a worker-dependent offset."""
    scale, shift = 1.0, 0.0

    def compute_local_reward(self, individual):
        s = sum((t * (i + 1)).sum() for i, t in enumerate(individual.values()))
        return torch.tanh(s / 10) * self.scale + self.shift


def params(rng):
    return EvolutionParameters(population_size=int(rng.choice([2, 3, 5, 8, 16, 16, 40])),
                               mutation_power=float(rng.choice([0.01, 0.1, 0.5, 2.0])),
                               learning_rate=float(rng.choice([0.01, 0.1, 0.5])))


def shapes(rng):
    out = {}
    for i in range(int(rng.integers(1, 4))):
        out[f"t{i}"] = [int(x) for x in rng.integers(1, 5, size=int(rng.integers(1, 3)))]
    return out


def cp(d):
    return {k: v.detach().clone() for k, v in d.items()}


def same(a, b):
    return all(torch.equal(a[k], b[k]) for k in a)


class Adam:
    def __init__(self, p, lr):
        self.p = {k: v.double().numpy().copy() for k, v in p.items()}
        self.m = {k: np.zeros_like(v) for k, v in self.p.items()}
        self.v = {k: np.zeros_like(v) for k, v in self.p.items()}
        self.t, self.lr = 0, lr

    def step(self, g):
        self.t += 1
        for k in self.p:
            self.m[k] = 0.9 * self.m[k] + 0.1 * g[k]
            self.v[k] = 0.999 * self.v[k] + 0.001 * g[k] ** 2
            mh, vh = self.m[k] / (1 - 0.9 ** self.t), self.v[k] / (1 - 0.999 ** self.t)
            self.p[k] = self.p[k] - self.lr * mh / (np.sqrt(vh) + 1e-8)


def single(ctx, rng, i):
    ep, ts, seed = params(rng), shapes(rng), int(rng.integers(0, 100000))
    iters = int(rng.integers(2, 7))
    with ctx.case("pool", f"seed={seed} {ep} {ts}", distinct=f"{i}"):
        a = Pool(seed, ep, ts)
        torch.rand(int(rng.integers(1, 9)))  # unrelated RNG use
        b = Pool(seed, ep, ts)
        ctx.expect(same(a.parent_tensors, b.parent_tensors), "init-repro", "same seed, different initial parents")
        ref = Adam(a.parent_tensors, ep.learning_rate)
        seen, zs = [], []
        sloppy = False  # Adam's sign-like first steps amplify round-off when a gradient element is nearly zero
        for it in range(iters):
            ctx.saw("iterations")
            parent = cp(a.parent_tensors)
            noise = []
            for ind in a.population_tensors:
                ctx.saw("individuals")
                z = np.concatenate([((ind[k].double() - parent[k].double()) / ep.mutation_power).numpy().ravel() for k in ts])
                noise.append(z)
                zs.append(z)
            for z in noise:
                for y in seen:
                    if z.size > 4 and np.allclose(z, y, atol=1e-3):
                        ctx.expect(False, "shared-noise", f"two individuals share noise (iteration {it})")
                seen.append(z)
            ctx.saw("replicas")
            ctx.expect(all(same(x, y) for x, y in zip(a.population_tensors, b.population_tensors)), "replica-individuals",
                       f"pools with the same seed and reward log differ at iteration {it}")
            # local rewards come in population order
            lr = a.compute_all_local_rewards()
            want = torch.stack([a.compute_local_reward(x) for x in a.population_tensors])
            ctx.saw("local_rewards", len(lr))
            ctx.expect(lr.shape == want.shape and torch.allclose(lr, want), "local-rewards", "rewards not one per individual in order", got=lr.tolist(), want=want.tolist())
            equal = rng.random() < 0.2
            r = np.full(ep.population_size, float(rng.normal()), np.float32) if equal else rng.normal(size=ep.population_size).astype(np.float32) * float(rng.choice([0.01, 1, 50, 3e-5, 1e4]))
            if not equal and rng.random() < 0.2:
                r[int(rng.integers(0, len(r)))] += np.float32(rng.choice([-30, 30]) * (r.std() + 0.01))  # one far outlier
            if not equal and 0 < r.std(ddof=1) < 1e-5:
                r *= np.float32(1e-5 / r.std(ddof=1))  # differences smaller than this count as equal
            rt = torch.tensor(r)
            torch.rand(int(rng.integers(1, 9)))
            a.apply_global_reward(rt.clone(), it + 1)
            torch.rand(int(rng.integers(1, 9)))
            b.apply_global_reward(rt.clone(), it + 1)
            ctx.expect(same(a.parent_tensors, b.parent_tensors), "replica-parents", f"same rewards, different parents at iteration {it}")
            if equal:
                ctx.saw("equal_rewards")
                ctx.expect(same(parent, a.parent_tensors), "equal-rewards-move", "rewards carry no preference yet the parent moved")
                continue
            r64 = r.astype(np.float64)
            w = (r64 - r64.mean()) / r64.std(ddof=1)
            g = -sum(wi * z for wi, z in zip(w, noise)) / ep.population_size
            off, gd = 0, {}
            for k in ts:
                n = parent[k].numel()
                gd[k] = g[off:off + n].reshape(parent[k].shape)
                off += n
            sloppy = sloppy or np.abs(g).min() < 1e-3
            # the gradient handed to the optimizer
            for k in ts:
                tol = 1e-3 + 2e-6 / ep.mutation_power * (1 + parent[k].abs().max().item()) * 10
                ctx.close(a.parent_tensors[k].grad, gd[k], "gradient", rtol=1e-3, atol=tol)
            ref.step(gd)
            ctx.saw("adam_steps")
            for k in ts:
                moved = (a.parent_tensors[k] - parent[k]).abs().max().item()
                ctx.expect(moved > 0, "no-step", f"{k} did not move")
                if not sloppy:
                    ctx.close(a.parent_tensors[k], ref.p[k], "adam", rtol=1e-2, atol=0.03 * ep.learning_rate * (it + 1) + 1e-4)
        # ascent: with distinct rewards the step follows the noises that scored higher -- covered by the sign of gradient
        z = np.concatenate(zs)
        ctx.saw("noise_samples", z.size)
        # 5e-10-ish bounds for mean and variance of n unit normals
        n = z.size
        ctx.expect(abs(z.mean()) < 6.5 / np.sqrt(n) and abs((z ** 2).mean() - 1) < 6.5 * np.sqrt(2 / n) + 45.0 / n,
                   "noise-scale", f"noise mean {z.mean():.3f} second moment {(z**2).mean():.3f} over {n}")
        # seed and iteration alone decide the noise: a fresh pool sent straight to the last iteration has it
        c = Pool(seed, ep, ts)
        for k in ts:
            c.parent_tensors[k].data.copy_(a.parent_tensors[k].data)
        c.populate_children(iters)
        ctx.expect(all(same(x, y) for x, y in zip(a.population_tensors, c.population_tensors)), "noise-history",
                   "noise depends on more than seed and iteration")
        d = Pool((seed + 1) % 100000, ep, ts)
        ctx.expect(not same(d.parent_tensors, b.parent_tensors), "seed-ignored", "another seed, same pool")


def collisions(ctx, rng, i):
    """no two (seed, iteration) pairs share their noise"""
    ep = EvolutionParameters(population_size=2, mutation_power=1.0, learning_rate=0.1)
    s = int(rng.integers(0, 30000))
    with ctx.case("noise_pairs", s, distinct=f"c{i}"):
        seen = {}
        for seed in [s] + [s + d for d in (1, 2, 10, 16, 100, 256, 1000, 1024, 4096, 10000, 65536)]:
            p = Pool(seed, ep, {"t": [3]})
            for it in list(range(0, 20)) + [31, 32, 33, 63, 64, 65, 100, 127, 128, 255, 256, 999, 1000, 1024, 9999]:
                p.populate_children(it)
                ctx.saw("noise_pairs")
                for j, ind in enumerate(p.population_tensors):
                    key = tuple(((ind["t"] - p.parent_tensors["t"]) * 1000).round().tolist())
                    other = seen.setdefault(key, (seed, it, j))
                    ctx.expect(other == (seed, it, j), "shared-noise", f"seed, iteration, individual {(seed, it, j)} repeat the noise of {other}")


def worker(rank, n, path, q, seed, ep, ts, iters, kind):
    try:
        os.environ["GLOO_SOCKET_IFNAME"] = "lo"
        torch.set_num_threads(1)
        dist.init_process_group("gloo", init_method="file://" + path, rank=rank, world_size=n)
        group = dist.new_group(list(range(n)))
        pool = kind(seed, ep, ts)
        pool.scale, pool.shift = 1.0 + rank, -0.5 * rank
        log, rets = [], []
        if isinstance(pool, Pool):
            orig = pool.compute_all_local_rewards

            def rec():
                r = orig()
                log.append(r.tolist())
                return r
            pool.compute_all_local_rewards = rec
        torch.manual_seed(1000 + rank)
        w = EsWorker(pool, ep, group, n)
        for _ in range(iters):
            rets.append(float(w.run_epoch()))
            torch.rand(rank + 1)
        q.put((rank, None, log, rets, w.iteration, {k: v.detach().numpy() for k, v in pool.parent_tensors.items()},
               [{k: v.detach().numpy() for k, v in x.items()} for x in pool.population_tensors],
               float(pool.compute_local_reward(pool.parent_tensors))))
    except BaseException as e:  # noqa
        q.put((rank, repr(e)[:300]) + (None,) * 6)


def workers(ctx, rng, i):
    n, iters = int(rng.integers(2, 5)), int(rng.integers(2, 6))
    ep, seed = params(rng), int(rng.integers(0, 100000))
    kind = Pool if i % 3 else OneMaxEvolutionPool
    ts = shapes(rng) if kind is Pool else {"data": [int(rng.choice([2, 5, 8, 9, 65, 130]))]}
    with ctx.case("workers", f"n={n} iters={iters} seed={seed} {ep} {ts} {kind.__name__}", distinct=f"w{i}"):
        mpc = mp.get_context("fork")
        q, path = mpc.Queue(), tempfile.mktemp(prefix="rdv", dir=os.getcwd())
        ps = [mpc.Process(target=worker, args=(r, n, path, q, seed, ep, ts, iters, kind), daemon=True) for r in range(n)]
        for p in ps:
            p.start()
        got = {}
        try:
            for _ in range(n):
                x = q.get(timeout=60)
                got[x[0]] = x
        finally:
            for p in ps:
                p.join(10 if len(got) == n else 0.1)
                if p.is_alive():
                    p.kill()
                    p.join()
        for r in range(n):
            ctx.require(got[r][1] is None, "worker-raised", f"worker {r}: {got[r][1]}")
        ctx.saw("worker_runs")
        ctx.saw("worker_epochs", n * iters)
        for r in range(n):
            ctx.expect(got[r][4] == iters, "worker-iteration", f"worker {r} counted {got[r][4]} epochs of {iters}")
            ctx.expect(all(np.array_equal(got[r][5][k], got[0][5][k]) for k in ts), "workers-parents", f"worker {r} and worker 0 disagree on the parent")
            ctx.expect(all(np.array_equal(x[k], y[k]) for x, y in zip(got[r][6], got[0][6]) for k in ts), "workers-individuals", f"worker {r} and worker 0 disagree on the population")
            ctx.expect(len(got[r][3]) == iters and np.isclose(got[r][3][-1], got[r][7], rtol=1e-5), "worker-return", "run_epoch does not return the new parent's reward")
        if kind is Pool:  # replay the averaged log in one process
            solo = Pool(seed, ep, ts)
            for it in range(iters):
                avg = torch.tensor(np.mean([got[r][2][it] for r in range(n)], axis=0), dtype=torch.float)
                solo.apply_global_reward(avg, it + 1)
            for k in ts:
                ctx.close(got[0][5][k], solo.parent_tensors[k].detach().numpy(), "averaged-rewards", rtol=2e-2, atol=0.1 * ep.learning_rate)
        else:
            x = torch.tensor(got[0][5]["data"]).double().numpy()
            s = 1 / (1 + np.exp(-x))
            ctx.close(np.float64(got[0][7]), (s[0::2].sum() + (1 - s[1::2]).sum()) / x.size, "onemax", rtol=1e-4, atol=1e-6)


def run(ctx):
    with ctx.part("workers"):
        rng = ctx.nprng("workers")
        for i in range(ctx.n(6, 40)):
            workers(ctx, rng, i)
    with ctx.part("pool"):
        rng = ctx.nprng("pool")
        for i in range(ctx.n(60, 800)):
            single(ctx, rng, i)
    with ctx.part("noise_pairs"):
        rng = ctx.nprng("noise_pairs")
        for i in range(ctx.n(6, 40)):
            collisions(ctx, rng, i)
