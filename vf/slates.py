"""Harness for the sequence ranker: networks with a call recorder and logged slates."""
import random

import torch
import reagent.types as rlt
from reagent.model_utils.seq2slate_utils import Seq2SlateMode, Seq2SlateOutputArch
from reagent.models.seq2slate import Seq2SlateTransformerNet

ARCHS = [Seq2SlateOutputArch.AUTOREGRESSIVE, Seq2SlateOutputArch.FRECHET_SORT, Seq2SlateOutputArch.ENCODER_SCORE]


class RecNet(Seq2SlateTransformerNet):
    """The real network; remembers every (input, mode, output) it served."""

    def forward(self, input, mode, tgt_seq_len=None, greedy=None):
        out = super().forward(input, mode=mode, tgt_seq_len=tgt_seq_len, greedy=greedy)
        if not hasattr(self, "log"):
            object.__setattr__(self, "log", [])
        self.log.append((input, mode, out))
        return out


def make_net(rng, arch, src, tgt, cls=Seq2SlateTransformerNet, s=None, c=None, spread=1.0):
    heads = rng.choice([1, 2])
    dim = heads * rng.choice([2, 4])
    net = cls(state_dim=s or rng.randint(1, 3), candidate_dim=c or rng.randint(1, 3), num_stacked_layers=rng.choice([1, 2]), num_heads=heads, dim_model=dim,
              dim_feedforward=rng.choice([4, 8]), max_src_seq_len=src, max_tgt_seq_len=tgt, output_arch=arch, temperature=1.0)
    with torch.no_grad():
        for p in net.parameters():
            if p.dim() > 1:
                p.mul_(spread)
    return net


def orders(rng, n, src, tgt):
    return torch.tensor([rng.sample(range(src), tgt) for _ in range(n)])


def slate_batch(rng, net, n, action=None, propensity=None, reward=None, position_reward=None, optimal=None):
    src, tgt = net.max_src_seq_len, net.max_tgt_seq_len
    return rlt.PreprocessedRankingInput.from_input(
        state=torch.randn(n, net.state_dim), candidates=torch.randn(n, src, net.candidate_dim), device=torch.device("cpu"),
        action=orders(rng, n, src, tgt) if action is None else action, optimal_action=optimal,
        logged_propensities=propensity, slate_reward=reward, position_reward=position_reward)


def rebuild(b, rows=None, action=None, **kw):
    """The same states and candidates (a subset of rows) with another slate."""
    r = slice(None) if rows is None else rows
    pick = lambda x: None if x is None else x[r]
    return rlt.PreprocessedRankingInput.from_input(
        state=b.state.float_features[r], candidates=b.src_seq.float_features[r], device=torch.device("cpu"),
        action=(b.tgt_out_idx[r] - 2) if action is None else action,
        optimal_action=None if b.optim_tgt_out_idx is None else b.optim_tgt_out_idx[r] - 2,
        logged_propensities=kw.get("propensity", pick(b.tgt_out_probs)), slate_reward=kw.get("reward", pick(b.slate_reward)), position_reward=pick(b.position_reward))
