"""Harness for trainers: small networks owned by the harness, typed random batches, and a
driver that pairs every yielded loss with the optimizer Lightning would give it to."""
import copy
import types as pytypes

import numpy as np
import torch
import torch.nn as nn
import reagent.types as rlt


# ------------------------------------------------------------------ networks
class Mlp(nn.Module):
    def __init__(self, i, o, h=5, scale=1.0):
        super().__init__()
        self.a = nn.Linear(i, h)
        self.b = nn.Linear(h, o)
        self.scale = scale

    def forward(self, x):
        return self.b(torch.tanh(self.a(x))) * self.scale


class QNet(Mlp):
    """state -> value per action"""

    def forward(self, state):
        return super().forward(state.float_features)


class DistNet(nn.Module):
    """state -> (rows, actions, atoms); log_dist is normalised over atoms"""

    def __init__(self, i, a, n, scale=1.0):
        super().__init__()
        self.m = Mlp(i, a * n, scale=scale)
        self.a, self.n = a, n

    def forward(self, state):
        return self.m(state.float_features).view(-1, self.a, self.n)

    def log_dist(self, state):
        return torch.log_softmax(self.forward(state), -1)


class CriticNet(Mlp):
    """(state, action) -> value"""

    def __init__(self, s, a, o=1, **kw):
        super().__init__(s + a, o, **kw)

    def forward(self, state, action):
        return super().forward(torch.cat((state.float_features, action.float_features), dim=1))


class DetActor(Mlp):
    def forward(self, state):
        return rlt.ActorOutput(action=torch.tanh(super().forward(state.float_features)), log_prob=torch.zeros(state.float_features.shape[0], 1))


class LogitActor(Mlp):
    def forward(self, state):
        return rlt.ActorOutput(action=super().forward(state.float_features), log_prob=None)


class GaussActor(nn.Module):
    """Reparameterised diagonal Gaussian, unsquashed, unit log-density bookkeeping."""

    def __init__(self, s, a, log_std=0.0):
        super().__init__()
        self.mu, self.ls = Mlp(s, a), Mlp(s, a, scale=0.3)
        with torch.no_grad():
            self.ls.b.bias.add_(log_std / 0.3)

    def _lp(self, mu, ls, act):
        return (-((act - mu) ** 2) / (2 * torch.exp(2 * ls)) - ls - 0.9189385332046727).sum(1, keepdim=True)

    def forward(self, state):
        mu, ls = self.mu(state.float_features), self.ls(state.float_features)
        act = mu + torch.exp(ls) * torch.randn_like(mu)
        return rlt.ActorOutput(action=act, log_prob=self._lp(mu, ls, act), squashed_mean=mu)

    def get_log_prob(self, state, action):
        return self._lp(self.mu(state.float_features), self.ls(state.float_features), action)


def perturbed(net, rng_scale=0.5):
    """A copy with different parameters (so online and target disagree)."""
    t = copy.deepcopy(net)
    with torch.no_grad():
        for p in t.parameters():
            p.add_(torch.randn_like(p) * rng_scale)
    return t


# ------------------------------------------------------------------ batches
def feats(n, d):
    return rlt.FeatureData(torch.randn(n, d))


def one_hot(idx, a):
    return torch.nn.functional.one_hot(torch.tensor(idx), a).float()


def masks(rng, n, a, always=None):
    m = torch.zeros(n, a)
    for i in range(n):
        for j in range(a):
            m[i, j] = 1.0 if rng.random() < 0.6 else 0.0
        m[i, rng.randrange(a)] = 1.0
        if always is not None:
            m[i, always[i]] = 1.0
    return m


def not_terminal(rng, n):
    p = rng.choice([0.0, 0.3, 0.7, 1.0])
    return torch.tensor([[0.0 if rng.random() < p else 1.0] for _ in range(n)])


def magnitude(rng, usual=3.0):
    """Scale of rewards and values: mostly ordinary, sometimes far outside the usual range."""
    return usual * rng.choice([1, 1, 1, 1, 0.01, 20, 1e3, 3e4])


def steps(rng, n, usual, high=60):
    """Whole numbers of steps or time units, usually small."""
    top = usual if rng.random() < 0.75 else high
    return torch.tensor([[rng.randint(1, top)] for _ in range(n)])


def dqn_batch(rng, n, s, a, metrics=0, bool_masks=False, wide=False):
    """wide: rewards and step counts far outside the usual range too (training on them diverges)"""
    size = magnitude if wide else (lambda rng, usual=3.0: usual)
    high = 60 if wide else 6
    act = [rng.randrange(a) for _ in range(n)]
    nact = [rng.randrange(a) for _ in range(n)]
    nt = not_terminal(rng, n)
    # a terminal row has no next action in logged data
    na = one_hot(nact, a) * nt
    return rlt.DiscreteDqnInput(
        state=feats(n, s), next_state=feats(n, s), reward=torch.randn(n, 1) * size(rng),
        time_diff=steps(rng, n, 6, high), step=steps(rng, n, 5, high),
        not_terminal=nt, action=one_hot(act, a), next_action=na,
        possible_actions_mask=masks(rng, n, a, act), possible_next_actions_mask=masks(rng, n, a, nact),
        extras=rlt.ExtraData(action_probability=torch.rand(n, 1) * 0.9 + 0.1, metrics=torch.randn(n, metrics) * size(rng, 1.0) if metrics else None,
                             mdp_id=torch.arange(n).reshape(-1, 1), sequence_number=torch.ones(n, 1, dtype=torch.long)),
    )


def tensors_of(obj, prefix=""):
    """Every tensor reachable in a typed batch, by path."""
    import dataclasses

    out = {}
    if torch.is_tensor(obj):
        out[prefix] = obj
    elif dataclasses.is_dataclass(obj):
        for f in dataclasses.fields(obj):
            out.update(tensors_of(getattr(obj, f.name), f"{prefix}.{f.name}"))
    elif isinstance(obj, dict):
        for k, v in obj.items():
            out.update(tensors_of(v, f"{prefix}[{k}]"))
    elif isinstance(obj, (list, tuple)):
        for i, v in enumerate(obj):
            out.update(tensors_of(v, f"{prefix}[{i}]"))
    return out


def snapshot(obj):
    return {k: v.detach().clone() for k, v in tensors_of(obj).items()}


def same(snap, obj):
    now = tensors_of(obj)
    return [k for k in snap if k not in now or not torch.equal(torch.nan_to_num(snap[k].double(), nan=1e99), torch.nan_to_num(now[k].detach().double(), nan=1e99))]


# ------------------------------------------------------------------ driving
class Reporter:
    def __init__(self):
        self.calls = []

    def log(self, **kw):
        self.calls.append(kw)

    def flush(self, epoch):
        pass

    def last(self, key):
        for c in reversed(self.calls):
            if key in c:
                return c[key]
        return None


def attach(module, log_every=1):
    """Stand-in for the Lightning trainer attributes a trainer reads."""
    module.trainer = pytypes.SimpleNamespace(log_every_n_steps=log_every, current_epoch=0)
    rep = Reporter()
    module.set_reporter(rep)
    return rep


def torch_opt(o):
    return getattr(o, "optimizer", o)


def opt_params(o):
    return [p for g in torch_opt(o).param_groups for p in g["params"]]


def is_soft(o):
    return type(torch_opt(o)).__name__ == "SoftUpdate"


def drive(module, batch, batch_idx, opts, on_loss, step=False):
    """One Lightning training batch: for each optimizer toggle, training_step, backward, step.
    on_loss(i, optimizer, loss, grads) sees the loss and its gradient over that optimizer's
    parameters, before the step is taken."""
    for i, o in enumerate(opts):
        module.toggle_optimizer(torch_opt(o), i)
        loss = module.training_step(batch, batch_idx, i)
        ps = opt_params(o)
        grads = None
        if loss is not None and not is_soft(o):
            grads = torch.autograd.grad(loss, ps, retain_graph=True, allow_unused=True) if loss.requires_grad else None
        on_loss(i, o, loss, grads)
        if step:
            if loss is None:
                o.step(closure=lambda: None)
            else:
                loss.backward()
                o.step()
            torch_opt(o).zero_grad()
    for p in module.parameters():
        p.requires_grad = True


def check_grad(ctx, mech, got, ref_loss, params, rtol=1e-3, atol=2e-5):
    """Gradient of the reference loss over the same parameters."""
    want = torch.autograd.grad(ref_loss, params, allow_unused=True, retain_graph=True)
    if got is None:
        return ctx.expect(False, mech, "the loss carries no gradient to its optimizer's parameters")
    z = lambda g, p: torch.zeros_like(p) if g is None else g
    g = torch.cat([z(x, p).reshape(-1) for x, p in zip(got, params)])
    w = torch.cat([z(x, p).reshape(-1) for x, p in zip(want, params)])
    scale = max(1.0, float(w.abs().max()))
    return ctx.close(g / scale, w / scale, mech, rtol=rtol, atol=atol)


def value(net_out):
    return net_out.detach().double().numpy()
