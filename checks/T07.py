"""T07: the sequence ranker outputs permutations with consistent probabilities."""
import vf.quiet  # noqa
import itertools
import math

import numpy as np
import torch
from reagent.model_utils.seq2slate_utils import Seq2SlateMode, Seq2SlateOutputArch, per_symbol_to_per_seq_log_probs, per_symbol_to_per_seq_probs

from vf.slates import ARCHS, make_net, orders, rebuild, slate_batch
from vf.stats import multinomial_ok

RULE = (
    "Random transformer rankers of the three output architectures rank random candidate sets in greedy and sampling mode. "
    "Every output must be distinct in-range positions; step distributions must be normalised, give nothing to reserved "
    "symbols or to already chosen candidates; the reported order probability is the product of the step probabilities and "
    "equals the probability obtained by re-scoring the order; greedy picks the arg max; probabilities of all orders sum to "
    "one by enumeration; sampled orders follow those probabilities (exact test); permuting other rows changes nothing."
)
REQUIRED = {"orders_enumerated": 800, "ranked_rows": 300, "rescored": 150, "greedy_steps": 120, "sampled_orders": 20000, "short_target": 15, "arch:frechet_sort": 20, "arch:autoregressive": 20, "arch:encoder_score": 10, "encoder_scores": 15, "long_rescored": 80, "single_row": 10, "single_candidate": 3}
ASSUMPTIONS = ["candidate order probabilities above the documented 1e-40 floor"]

SEQ, SYM = Seq2SlateMode.PER_SEQ_LOG_PROB_MODE, Seq2SlateMode.PER_SYMBOL_LOG_PROB_DIST_MODE


def check_rank(ctx, net, batch, out, tgt, greedy):
    n, src = batch.src_seq.float_features.shape[:2]
    idx = out.ranked_tgt_out_idx
    ctx.require(tuple(idx.shape) == (n, tgt), "ranked_shape", f"{tuple(idx.shape)} want {(n, tgt)}")
    rows = (idx - 2).tolist()
    for r in rows:
        ctx.saw("ranked_rows")
        ctx.require(all(0 <= x < src for x in r), "ranked_positions_in_range", f"{r} of {src}")
        ctx.require(len(set(r)) == tgt, "ranked_positions_distinct", f"{r}")
    return rows


def decoder_case(ctx, k):
    rng = ctx.sub(f"dec{k}")
    ctx.seed_all(f"dec{k}")
    arch = ARCHS[k % 2]
    src = rng.choice([1, 2, 3, 4, 4, 5])
    tgt = rng.randint(1, src)
    n = rng.choice([1, 1, 2, 5])
    net = make_net(rng, arch, src, tgt, spread=rng.choice([0.5, 1.0, 2.0, 4.0]))
    batch = slate_batch(rng, net, n)
    with ctx.case("decode", dict(arch=arch.value, src=src, tgt=tgt, n=n), distinct=k), torch.no_grad():
        ctx.saw("arch:" + arch.value)
        ctx.saw("short_target", tgt < src)
        ctx.saw("single_row", n == 1)
        ctx.saw("single_candidate", src == 1)
        # --- all orders sum to one, product of steps over remaining candidates
        total = np.zeros(n)
        lookup = {}
        for perm in itertools.permutations(range(src), tgt):
            b = rebuild(batch, action=torch.tensor([perm] * n))
            lp = net(b, mode=SEQ).log_probs.double()
            sym = net(b, mode=SYM).log_probs.double()
            ctx.saw("orders_enumerated", n)
            ctx.require(tuple(lp.shape) == (n, 1) and tuple(sym.shape) == (n, tgt, src + 2), "log_prob_shapes", f"{tuple(lp.shape)} {tuple(sym.shape)}")
            p = torch.exp(lp)[:, 0].numpy()
            probs = torch.exp(sym)
            prod = np.ones(n)
            for i in range(n):
                for t in range(tgt):
                    row = probs[i, t].numpy()
                    ctx.require(abs(row.sum() - 1) < 1e-4, "step_distribution_normalised", f"step {t} sums to {row.sum()}")
                    barred = [0, 1] + [perm[u] + 2 for u in range(t)]
                    ctx.require(row[barred].max() < 1e-6, "no_mass_on_reserved_or_chosen", f"step {t}: {row} barred {barred}")
                    prod[i] *= row[perm[t] + 2]
            ctx.close(p, prod, "order_probability_is_product_of_steps", rtol=1e-3, atol=1e-6)
            sq = per_symbol_to_per_seq_log_probs(sym, b.tgt_out_idx)
            ctx.close(torch.exp(sq), prod[:, None], "sequence_log_prob_is_sum_of_steps", rtol=1e-3, atol=1e-6)
            ctx.close(per_symbol_to_per_seq_probs(probs, b.tgt_out_idx), prod[:, None], "sequence_prob_is_product_of_steps", rtol=1e-3, atol=1e-6)
            total += p
            lookup[perm] = p
        ctx.close(total, np.ones(n), "order_probabilities_sum_to_one", rtol=1e-3)

        # --- greedy
        out = net(batch, mode=Seq2SlateMode.RANK_MODE, tgt_seq_len=tgt, greedy=True)
        rows = check_rank(ctx, net, batch, out, tgt, True)
        steps = out.ranked_per_symbol_probs.double().numpy()
        for i, r in enumerate(rows):
            for t in range(tgt):
                ctx.saw("greedy_steps")
                ctx.expect(steps[i, t, r[t] + 2] >= steps[i, t].max() - 1e-6, "greedy_picks_most_likely", f"step {t}: {steps[i,t]} picked {r[t]}")
            ctx.saw("rescored")
            ctx.close(out.ranked_per_seq_probs.double()[i, 0], lookup[tuple(r)][i], "ranked_probability_is_rescored_probability", rtol=2e-3, atol=1e-6)
        default = net(batch, mode=Seq2SlateMode.RANK_MODE, greedy=True)
        ctx.expect(torch.equal(default.ranked_tgt_out_idx, out.ranked_tgt_out_idx), "default_length_is_the_maximum", "")
        # --- shorter ranking is the prefix of the longer greedy one
        if tgt > 1:
            short = net(batch, mode=Seq2SlateMode.RANK_MODE, tgt_seq_len=tgt - 1, greedy=True)
            ctx.expect((short.ranked_tgt_out_idx - 2).tolist() == [r[: tgt - 1] for r in rows], "greedy_prefix_stable", f"{short.ranked_tgt_out_idx.tolist()} vs {rows}")
        # --- rows are independent
        if n > 1:
            one = net(rebuild(batch, rows=[n - 1]), mode=Seq2SlateMode.RANK_MODE, tgt_seq_len=tgt, greedy=True)
            ctx.expect((one.ranked_tgt_out_idx - 2).tolist()[0] == rows[-1] or near_tie(steps[-1]), "rows_ranked_independently", f"{one.ranked_tgt_out_idx.tolist()} vs {rows[-1]}")
            ctx.close(one.ranked_per_seq_probs[0, 0], out.ranked_per_seq_probs[n - 1, 0], "row_probability_independent", rtol=1e-3)

        # --- sampling
        for _ in range(3):
            out = net(batch, mode=Seq2SlateMode.RANK_MODE, tgt_seq_len=tgt, greedy=False)
            rows = check_rank(ctx, net, batch, out, tgt, False)
            for i, r in enumerate(rows):
                ctx.saw("rescored")
                ctx.close(out.ranked_per_seq_probs.double()[i, 0], lookup[tuple(r)][i], "sampled_probability_is_rescored_probability", rtol=2e-3, atol=1e-6)
    if k % 4 < 2 and math.perm(src, tgt) <= 60:
        m = 2000
        with ctx.case("sampled_orders", dict(arch=arch.value, src=src, tgt=tgt), distinct=k), torch.no_grad():
            big = rebuild(batch, rows=[0] * m, action=orders(rng, m, src, tgt))
            out = net(big, mode=Seq2SlateMode.RANK_MODE, tgt_seq_len=tgt, greedy=False)
            perms = list(lookup)
            at = {p: j for j, p in enumerate(perms)}
            counts = [0] * len(perms)
            for r in check_rank(ctx, net, big, out, tgt, False):
                counts[at[tuple(r)]] += 1
            pr = np.array([lookup[p][0] for p in perms])
            ctx.saw("sampled_orders", m)
            ok, why = verdict(counts, pr / pr.sum())
            ctx.expect(ok, "sampled_orders_follow_probabilities", why)


def near_tie(steps):
    s = np.sort(steps, axis=-1)
    return bool((s[:, -1] - s[:, -2] < 1e-5).any())


def verdict(counts, probs):
    r = multinomial_ok(counts, probs)
    if isinstance(r, tuple):
        return r
    return bool(r), f"counts {counts} probabilities {np.round(probs, 4).tolist()}"


def encoder_case(ctx, k):
    rng = ctx.sub(f"enc{k}")
    ctx.seed_all(f"enc{k}")
    src = rng.choice([1, 2, 3, 5, 9])
    tgt = rng.randint(1, src)
    n = rng.choice([1, 1, 2, 6])
    net = make_net(rng, Seq2SlateOutputArch.ENCODER_SCORE, src, tgt)
    batch = slate_batch(rng, net, n)
    full = rebuild(batch, action=torch.tensor([list(range(src))] * n))
    with ctx.case("encoder", dict(src=src, tgt=tgt, n=n), distinct=k), torch.no_grad():
        ctx.saw("arch:encoder_score")
        ctx.saw("single_row", n == 1)
        ctx.saw("single_candidate", src == 1)
        out = net(batch, mode=Seq2SlateMode.RANK_MODE, tgt_seq_len=tgt, greedy=True)
        rows = check_rank(ctx, net, batch, out, tgt, True)
        scores = net(full, mode=Seq2SlateMode.ENCODER_SCORE_MODE).encoder_scores
        ctx.require(tuple(scores.shape) == (n, src), "encoder_scores_shape", f"{tuple(scores.shape)} for batch {n} and {src} candidates")
        ctx.saw("encoder_scores")
        for i, r in enumerate(rows):
            s = scores[i].tolist()
            chosen = [s[j] for j in r]
            rest = [s[j] for j in range(src) if j not in r]
            ctx.expect(all(a >= b - 1e-5 for a, b in zip(chosen, chosen[1:])) and (not rest or min(chosen) >= max(rest) - 1e-5), "encoder_ranking_by_score", f"scores {s} order {r}")
        part = net(batch, mode=Seq2SlateMode.ENCODER_SCORE_MODE).encoder_scores
        ctx.require(tuple(part.shape) == (n, tgt), "encoder_scores_shape", f"{tuple(part.shape)} for batch {n} and slate {tgt}")
        ctx.close(part, torch.gather(scores, 1, batch.tgt_out_idx - 2), "encoder_scores_follow_the_slate", rtol=1e-3)
        ctx.expect(bool((out.ranked_per_seq_probs == 1).all()), "deterministic_order_has_probability_one", "")


def long_case(ctx, k):
    rng = ctx.sub(f"long{k}")
    ctx.seed_all(f"long{k}")
    arch = ARCHS[k % 2]
    src = rng.randint(6, 14)
    tgt = rng.randint(2, src)
    n = rng.choice([1, 3])
    net = make_net(rng, arch, src, tgt, spread=rng.choice([0.5, 1.0]))
    batch = slate_batch(rng, net, n)
    with ctx.case("long", dict(arch=arch.value, src=src, tgt=tgt, n=n), distinct=k), torch.no_grad():
        for greedy in (True, False):
            out = net(batch, mode=Seq2SlateMode.RANK_MODE, tgt_seq_len=tgt, greedy=greedy)
            rows = check_rank(ctx, net, batch, out, tgt, greedy)
            b = rebuild(batch, action=torch.tensor(rows))
            lp = net(b, mode=SEQ).log_probs.double()
            ctx.saw("long_rescored", n)
            ctx.close(torch.log(out.ranked_per_seq_probs.double()), lp, "long_order_probability_is_rescored_probability", rtol=1e-3, atol=5e-3)
            sym = net(b, mode=SYM).log_probs.double()
            ctx.close(per_symbol_to_per_seq_log_probs(sym, b.tgt_out_idx), lp, "long_sequence_log_prob_is_sum_of_steps", rtol=1e-3, atol=5e-3)


def run(ctx):
    with ctx.part("long"):
        for k in range(ctx.n(40, 400)):
            long_case(ctx, k)
    with ctx.part("decoder"):
        for k in range(ctx.n(60, 600)):
            decoder_case(ctx, k)
    with ctx.part("encoder"):
        for k in range(ctx.n(30, 300)):
            encoder_case(ctx, k)
