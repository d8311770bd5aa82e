"""S02: ranking predictors return valid, correctly scored rankings."""
import vf.quiet  # noqa
import itertools
import io

import numpy as np
import torch
import reagent.types as rlt
from reagent.model_utils.seq2slate_utils import Seq2SlateMode, Seq2SlateOutputArch
from reagent.prediction.predictor_wrapper import Seq2SlatePredictorWrapper, Seq2SlateWithPreprocessor
from reagent.prediction.ranking.predictor_wrapper import DeterminantalPointProcessPredictorWrapper
from reagent.preprocessing.preprocessor import Preprocessor

from vf.features import feature_set, make_raw, reference
from vf.slates import ARCHS, make_net
from vf.stats import multinomial_ok
from vf.train import same, snapshot

RULE = (
    "The determinantal-point-process ranker is queried with 1-9 items of random quality and features (duplicated, orthogonal, zero and "
    "scaled vectors; several diversity weights): the kernel must equal its definition in float64, the order must be a permutation, every "
    "reported determinant must be the float64 determinant of the chosen items plus that one, and each step must take the largest. Exported "
    "sequence rankers (every architecture, greedy and sampling, 1-6 candidates differing from the configured length, batches of 1-5, raw "
    "features of every type with missing values) must return permutations whose probability is the product of the eager network's "
    "teacher-forced step distribution, take the argmax when greedy, sample orders with the reported odds otherwise (1e-9 bound), and answer "
    "permuted candidates with the permuted order; the saved and reloaded module must agree."
)
REQUIRED = {"dpp_rankings": 100, "determinants": 1500, "dpp_permuted": 40, "duplicates": 30, "rankings": 150, "steps": 400, "greedy_steps": 150,
            "ranked_permuted": 30, "row_alone": 60, "order_sums": 8, "tallies": 6, "reloaded": 20, "other_lengths": 40}


def reload(m):
    f = io.BytesIO()
    torch.jit.save(m, f)
    f.seek(0)
    return torch.jit.load(f)


def ranker(alpha, kept={}):
    if alpha not in kept:
        w = DeterminantalPointProcessPredictorWrapper(alpha)
        kept[alpha] = w, reload(w)
    return kept[alpha]


def dpp(ctx, k):
    rng = ctx.sub(f"dpp{k}")
    g = ctx.nprng(f"dpp{k}")
    n, d = rng.randint(1, 9), rng.choice([1, 2, 3, 6])
    alpha = rng.choice([1.0, 0.5, 0.9, 0.1, 0.0, 0.25])
    q = g.uniform(0.2, 3.0, size=(n, 1)) if rng.random() < 0.7 else g.integers(1, 6, size=(n, 1)).astype(float)
    f = g.normal(size=(n, d)) * rng.choice([0.01, 1.0, 50.0])
    if rng.random() < 0.3:
        f = np.eye(max(n, d))[:n, :d]
    if n > 1 and rng.random() < 0.4:
        i, j = rng.sample(range(n), 2)
        f[i] = f[j] * rng.choice([1.0, 2.0])
        ctx.saw("duplicates")
    if rng.random() < 0.15:
        f[rng.randrange(n)] = 0
    as_int = bool((q == q.round()).all()) and rng.random() < 0.5
    tq = torch.tensor(q).long() if as_int else torch.tensor(q, dtype=rng.choice([torch.float32, torch.float64]))
    tf = torch.tensor(f, dtype=torch.float32)
    with ctx.case("dpp", dict(n=n, d=d, alpha=alpha, q=q.ravel().tolist()), distinct=k):
        w, saved = ranker(alpha)
        snap = snapshot([tq, tf])
        chosen, dets, L, B = w(tq, tf)
        ctx.saw("dpp_rankings")
        ctx.expect(not same(snap, [tq, tf]), "dpp-request-changed", "")
        f64 = tf.double().numpy()
        nf = f64 / np.maximum(np.linalg.norm(f64, axis=1, keepdims=True), 1e-12)
        b = np.sqrt(alpha) * q * nf
        want = b @ b.T
        want[np.arange(n), np.arange(n)] = q.ravel() ** 2
        ctx.close(B, torch.tensor(b), "dpp-features", rtol=1e-4, atol=1e-5)
        ctx.close(L, torch.tensor(want), "dpp-kernel", rtol=1e-4, atol=1e-4)
        order = chosen.tolist()
        ctx.require(sorted(order) == list(range(n)), "dpp-not-a-permutation", f"{order}")
        ctx.require(tuple(dets.shape) == (n, n), "dpp-shape", f"{tuple(dets.shape)}")
        unique = True
        for t in range(n):
            ds = {}
            for j in range(n):
                ctx.saw("determinants")
                if j in order[:t]:
                    ctx.expect(float(dets[t, j]) < -1e38, "dpp-chosen-again", f"step {t}: item {j} {dets[t]}")
                    continue
                idx = order[:t] + [j]
                ds[j] = float(np.linalg.det(want[np.ix_(idx, idx)]))
                tol = 1e-4 * float(np.prod(np.diag(want)[idx])) + 1e-6
                ctx.expect(abs(float(dets[t, j]) - ds[j]) <= tol, "dpp-determinant", f"step {t} item {j}: {float(dets[t, j])} want {ds[j]} (q {q.ravel()}, f {f64.tolist()}, alpha {alpha})")
            best = max(ds.values())
            tol = 2e-4 * max(float(np.prod(np.diag(want)[order[:t] + [j]])) for j in ds) + 2e-6
            ctx.expect(ds[order[t]] >= best - tol, "dpp-not-greedy", f"step {t} took {order[t]} of {ds}")
            unique = unique and sum(v >= best - tol for v in ds.values()) == 1
        # ranked in another input order
        if unique:
            perm = g.permutation(n)
            again = w(tq[perm], tf[perm])[0].tolist()
            ctx.saw("dpp_permuted")
            ctx.expect([int(perm[i]) for i in again] == order, "dpp-order-of-items", f"{again} {perm} {order}")
        ctx.expect(torch.equal(saved(tq, tf)[0], chosen), "dpp-reloaded", "")


def preprocess(ctx, norm, raw):
    pre = Preprocessor(norm, False)
    out = pre(*raw)
    i = 0
    at = 0
    for j, f in enumerate(pre.sorted_features):
        want, tol = reference(norm[f], float(raw[0][i, j]), bool(raw[1][i, j]))
        ctx.expect(all(abs(a - b) <= tol for a, b in zip(out[i, at : at + len(want)].tolist(), want)), "feature-definition", f"{norm[f].feature_type}")
        at += len(want)
    return out


def raw_rows(rng, norm, n):
    order = Preprocessor(norm, False).sorted_features
    p = (torch.rand(n, len(order)) < 0.85).float()
    v = torch.tensor([[make_raw(rng, norm[f]) for f in order] for _ in range(n)], dtype=torch.float32).reshape(n, len(order))
    return v, p


def seq(ctx, k):
    rng = ctx.sub(f"seq{k}")
    ctx.seed_all(f"seq{k}")
    arch = ARCHS[k % 3]
    greedy = rng.random() < 0.45
    sn, cn = feature_set(rng), feature_set(rng)
    sp, cp = Preprocessor(sn, False), Preprocessor(cn, False)
    src = rng.randint(1, 5)
    with ctx.case("seq", dict(arch=str(arch), greedy=greedy, src=src), distinct=k):
        wid = lambda p: p(*p.input_prototype()).shape[1]  # noqa
        net = make_net(rng, arch, src, rng.randint(1, src), s=wid(sp), c=wid(cp), spread=rng.choice([1.0, 1.5, 2.0]))
        net.eval()
        before = snapshot(dict(net.state_dict()))
        w = Seq2SlatePredictorWrapper(Seq2SlateWithPreprocessor(net, sp, cp, greedy))
        saved = reload(w) if k % 7 < 2 else None
        ctx.expect(not same(before, dict(net.state_dict())), "seq-export-changes-weights", "")
        for n, L in [(1, src)] + [(rng.randint(1, 5), rng.choice([1, 2, 3, 3, 3, 4, 6])) for _ in range(6)]:
            ctx.saw("other_lengths", L != src)
            raw = raw_rows(rng, sn, n)
            docs = [raw_rows(rng, cn, L) for _ in range(n)]
            cand = (torch.stack([x[0] for x in docs]), torch.stack([x[1] for x in docs]))
            state = preprocess(ctx, sn, raw)
            cands = torch.stack([preprocess(ctx, cn, x) for x in docs])

            def teacher(st, cd, slate):
                """step distributions of the eager network while it is shown the slate"""
                inp = rlt.PreprocessedRankingInput.from_input(state=st, candidates=cd, device=torch.device("cpu"), action=slate)
                with torch.no_grad():
                    if arch == Seq2SlateOutputArch.ENCODER_SCORE:
                        return net(inp, mode=Seq2SlateMode.ENCODER_SCORE_MODE).encoder_scores
                    return net(inp, mode=Seq2SlateMode.PER_SYMBOL_LOG_PROB_DIST_MODE).log_probs.exp()[:, :, 2:]

            def ask(m, rw, cd, seed=3):
                torch.manual_seed(seed)
                with torch.no_grad():
                    p, o = m(rw, cd)
                return p, o

            snap = snapshot(list(raw) + list(cand))
            probs, orders = ask(w, raw, cand)
            ctx.expect(not same(snap, list(raw) + list(cand)), "seq-request-changed", "")
            ctx.require(tuple(probs.shape) == (n, 1) and tuple(orders.shape) == (n, L), "seq-shape", f"{probs.shape} {orders.shape}")
            ctx.saw("rankings", n)
            for i in range(n):
                ctx.require(sorted(orders[i].tolist()) == list(range(L)), "seq-not-a-permutation", f"{orders[i].tolist()}")
            dist = teacher(state, cands, orders)
            clear = [True] * n
            for i in range(n):
                ctx.saw("steps", L)
                if arch == Seq2SlateOutputArch.ENCODER_SCORE:
                    ctx.saw("greedy_steps", L)
                    s = dist[i].tolist()
                    ctx.expect(all(a >= b - 1e-5 for a, b in zip(s, s[1:])), "seq-scores-not-descending", f"{s}")
                    ctx.expect(float(probs[i]) == 1.0, "seq-deterministic-probability", f"{probs[i]}")
                    clear[i] = all(a > b + 1e-4 for a, b in zip(s, s[1:]))
                    continue
                p = 1.0
                for t in range(L):
                    row = dist[i, t]
                    ctx.expect(abs(float(row.sum()) - 1) < 1e-4, "seq-step-sum", f"{row}")
                    ctx.expect(float(row[orders[i, :t]].sum()) < 1e-6, "seq-repeats-possible", f"{row} after {orders[i, :t]}")
                    p *= float(row[orders[i, t]])
                    if greedy:
                        ctx.saw("greedy_steps")
                        ctx.expect(float(row[orders[i, t]]) >= float(row.max()) - 1e-4, "seq-not-argmax", f"{row} took {orders[i, t]}")
                        top = row.topk(min(2, L)).values.tolist()
                        clear[i] = clear[i] and (len(top) < 2 or top[0] > top[1] + 1e-3)
                ctx.expect(abs(float(probs[i]) - p) <= 1e-4 * p + 1e-7, "seq-probability", f"{float(probs[i])} want {p}")
            if saved is not None:
                again = ask(saved, raw, cand)
                ctx.saw("reloaded")
                ctx.expect(torch.equal(again[1], orders) and torch.allclose(again[0], probs), "seq-reloaded", f"{again} {probs} {orders}")
            if greedy or arch == Seq2SlateOutputArch.ENCODER_SCORE:
                perm = torch.tensor(rng.sample(range(L), L))
                p2, o2 = ask(w, raw, (cand[0][:, perm], cand[1][:, perm]))
                for i in range(n):
                    if clear[i]:
                        ctx.saw("ranked_permuted")
                        ctx.expect(perm[o2[i]].tolist() == orders[i].tolist(), "seq-order-of-items", f"{perm[o2[i]].tolist()} {orders[i].tolist()}")
                        ctx.close(p2[i], probs[i], "seq-probability-of-permuted", rtol=1e-3, atol=1e-6)
                        ctx.saw("row_alone")
                        p1, o1 = ask(w, tuple(x[i : i + 1] for x in raw), tuple(x[i : i + 1] for x in cand))
                        ctx.expect(o1[0].tolist() == orders[i].tolist() and abs(float(p1) - float(probs[i])) <= 1e-4 * float(probs[i]) + 1e-7, "seq-row-alone", f"{o1} {orders[i]}")
            elif L <= 3:
                # every order's probability, and how often it comes up
                table = {}
                for o in itertools.permutations(range(L)):
                    d = teacher(state[:1], cands[:1], torch.tensor([o]))
                    table[o] = float(np.prod([float(d[0, t, o[t]]) for t in range(L)]))
                ctx.saw("order_sums")
                ctx.expect(abs(sum(table.values()) - 1) < 1e-3, "seq-orders-sum", f"{table}")
                N = 2000
                rep = lambda x: x[:1].repeat((N,) + (1,) * (x.dim() - 1))  # noqa
                ps, os = ask(w, tuple(rep(x) for x in raw), tuple(rep(x) for x in cand), seed=k)
                seen = {o: 0 for o in table}
                for o, p in zip(os.tolist(), ps.ravel().tolist()):
                    ctx.require(tuple(o) in seen, "seq-not-a-permutation", f"{o}")
                    seen[tuple(o)] += 1
                    if abs(p - table[tuple(o)]) > 1e-4 * table[tuple(o)] + 1e-6:
                        ctx.expect(False, "seq-sampled-probability", f"{o}: {p} want {table[tuple(o)]}")
                tot = sum(table.values())
                ok, why = multinomial_ok([seen[o] for o in table], [v / tot for v in table.values()])
                ctx.saw("tallies")
                ctx.expect(ok, "seq-sampling-odds", f"{seen} {table} {why}")


def run(ctx):
    # no re-optimisation of every freshly scripted module while it is being watched
    torch._C._jit_set_profiling_executor(False)
    torch._C._jit_set_profiling_mode(False)
    with ctx.part("dpp"):
        for k in range(ctx.n(220, 6000)):
            dpp(ctx, k)
    with ctx.part("seq"):
        for k in range(ctx.n(21, 450)):
            seq(ctx, k)
