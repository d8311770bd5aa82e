"""C05: network architectures honour their output contract."""
import vf.quiet  # noqa
import types

import torch
import torch.nn.functional as F
from torch import nn
import reagent.training  # noqa
import reagent.types as rlt
from reagent.models.actor import DirichletFullyConnectedActor, FullyConnectedActor, GaussianFullyConnectedActor
from reagent.models.bcq import BatchConstrainedDQN
from reagent.models.categorical_dqn import CategoricalDQN
from reagent.models.containers import Sequential
from reagent.models.convolutional_network import ConvolutionalNetwork
from reagent.models.critic import FullyConnectedCritic
from reagent.models.dqn import FullyConnectedDQN
from reagent.models.dueling_q_network import DuelingQNetwork, ParametricDuelingQNetwork
from reagent.models.embedding_bag_concat import EmbeddingBagConcat
from reagent.models.fully_connected_network import FullyConnectedNetwork
from reagent.models.mlp_scorer import MLPScorer
from reagent.models.no_soft_update_embedding import NoSoftUpdateEmbedding
from reagent.net_builder import unions as U
from reagent.net_builder.slate_reward import slate_reward_gru, slate_reward_transformer
from reagent.parameters import GRUParameters, NormalizationData, NormalizationParameters, TransformerParameters

RULE = (
    "Networks are drawn at random - constructed directly, connected by hand and built by every net builder with random options - given random parameters and "
    "running statistics, and evaluated on random batches. Monitors check the declared shapes for several batch sizes, that a row's output does not depend on "
    "the rest of the batch (alone, permuted, repeated), that evaluation is repeatable and leaves network and inputs as they were, outputs recomputed layer by "
    "layer in double precision from the network's own parameters and the declared options, head identities of dueling, distributional, constrained and masked "
    "networks, the input prototype, and that copies for target and serving use agree and share nothing they should not."
)
REQUIRED = {"networks": 60, "builders": 25, "shapes": 150, "row_checks": 150, "references": 100, "dueling": 8, "distributional": 12, "masks": 10, "penalties": 20, "embeddings": 10, "targets": 60,
            "shared_tables": 3, "options_on": 20, "prototypes": 50, "train_mode": 12, "stochastic": 6}

ACT = {"tanh": torch.tanh, "relu": torch.relu, "leaky_relu": F.leaky_relu, "linear": lambda x: x, "sigmoid": torch.sigmoid, "ELU": F.elu, "Softplus": F.softplus, "SiLU": F.silu, "Hardtanh": F.hardtanh}
ACTS = list(ACT)


def fd(x):
    return rlt.FeatureData(float_features=x)


def hidden(rng, lo=0, even=False):
    k = rng.randint(lo, 3)
    sizes = [rng.choice([1, 2, 3, 5, 8]) for _ in range(k)]
    if even and sizes:
        sizes[-1] = rng.choice([2, 4, 6])
    return sizes, [rng.choice(ACTS) for _ in range(k)]


def randomise(net, seed):
    g = torch.Generator().manual_seed(seed)
    with torch.no_grad():
        for p in net.parameters():
            p.copy_(torch.randn(p.shape, generator=g) * (.7 if p.dim() > 1 else .4))
        for m in net.modules():
            if isinstance(m, (nn.LayerNorm, nn.BatchNorm1d)):
                m.weight.copy_(torch.rand(m.weight.shape, generator=g) + .5)
            if isinstance(m, nn.BatchNorm1d):
                m.running_mean.copy_(torch.randn(m.running_mean.shape, generator=g) * .5)
                m.running_var.copy_(torch.rand(m.running_var.shape, generator=g) + .3)


def leaves(net, kind):
    return [m for m in net.modules() if isinstance(m, kind)]


def stack(ctx, net, x, sizes, acts, bn=False, ln=False, ln_last=False):
    """a fully connected stack by the book, from the parameters net holds (in double precision)"""
    lin, bns, lns = leaves(net, nn.Linear), leaves(net, nn.BatchNorm1d), leaves(net, nn.LayerNorm)
    ctx.require([m.out_features for m in lin] == sizes, "layer-sizes", "the linear layers do not have the configured sizes", got=[m.out_features for m in lin], want=sizes)
    n = len(sizes)
    ctx.require(len(bns) == (n if bn else 0), "option-batch-norm", "batch normalisation layers do not follow the option", got=len(bns), option=bn, layers=n)
    want_ln = (n if ln_last else n - 1) if ln else 0
    ctx.require(len(lns) == want_ln, "option-layer-norm", "layer normalisation layers do not follow the option", got=len(lns), want=want_ln, option=ln)
    ctx.saw("options_on", int(bn) + int(ln and want_ln > 0))
    x = x.double()
    for i, (m, a) in enumerate(zip(lin, acts)):
        if bn:
            b = bns[i]
            x = (x - b.running_mean.double()) / (b.running_var.double() + b.eps).sqrt() * b.weight.double() + b.bias.double()
        x = x @ m.weight.double().t() + m.bias.double()
        if i < want_ln:
            k = lns[i]
            c = x - x.mean(-1, keepdim=True)
            x = c / ((c ** 2).mean(-1, keepdim=True) + k.eps).sqrt() * k.weight.double() + k.bias.double()
        x = ACT[a](x)
    return x


def drops(ctx, net, ratio, n):
    d = leaves(net, nn.Dropout)
    ctx.expect(len(d) == (n if ratio > 0 else 0) and all(abs(m.p - ratio) < 1e-12 for m in d), "option-dropout", "dropout layers do not follow the option", got=[m.p for m in d], ratio=ratio, hidden=n)
    if ratio > 0 and n:
        ctx.saw("options_on")


class Arch:
    """net: the network; make(n): inputs for n rows; pick(inputs, rows); out(inputs): the compared tensor (rows first); shape(n); ref(inputs) or None"""

    def __init__(self, net, make, shape, ref=None, pick=None, out=None, desc="", tol=1e-4, proto=True, fuzzy=None, after=None):
        self.net, self.make, self.shape, self.ref, self.desc, self.tol, self.proto, self.fuzzy, self.after = net, make, shape, ref, desc, tol, proto, fuzzy, after
        self.pick = pick or (lambda xs, rows: tuple(self._pick(x, rows) for x in xs))
        self.out = out or (lambda xs, net=None: (net or self.net)(*xs))

    @staticmethod
    def _pick(x, rows):
        return x[rows] if isinstance(x, torch.Tensor) else fd(x.float_features[rows])


def states(d, scale=1.5):
    return lambda n: (fd(torch.randn(n, d) * scale),)


def norm(rng):
    """normalisation data and the number of features it yields"""
    params, dim = {}, 0
    for i in range(rng.randint(1, 4)):
        if rng.random() < .25:
            k = rng.randint(2, 3)
            params[i * 7 + 1], dim = NormalizationParameters(feature_type="ENUM", possible_values=list(range(k))), dim + k
        else:
            params[i * 7 + 1], dim = NormalizationParameters(feature_type=rng.choice(["CONTINUOUS", "PROBABILITY", "BINARY"]), mean=0., stddev=1.), dim + 1
    return NormalizationData(dense_normalization_parameters=params), dim


# ---------------------------------------------------------------- architectures, direct
def a_fc(ctx, rng):
    d, (sizes, acts) = rng.randint(1, 5), hidden(rng)
    last, out = rng.choice(ACTS), rng.randint(1, 4)
    kw = dict(use_batch_norm=rng.random() < .4, use_layer_norm=rng.random() < .4, dropout_ratio=rng.choice([0., 0., .3]), normalize_output=rng.random() < .3, min_std=rng.choice([0., .5]))
    net = FullyConnectedNetwork([d] + sizes + [out], acts + [last], **kw)
    drops(ctx, net, kw["dropout_ratio"], len(sizes) + kw["normalize_output"])
    return Arch(net, lambda n: (torch.randn(n, d) * 1.5,), lambda n: (n, out), desc=f"{d}-{sizes}-{out} {acts} {last} {kw}",
                ref=lambda xs: stack(ctx, net, xs[0], sizes + [out], acts + [last], kw["use_batch_norm"], kw["use_layer_norm"], kw["normalize_output"]))


def masked(ctx, rng, net, d, a, atoms):
    """a masked evaluation of the same rows: impossible actions out of reach, the others unchanged"""
    n = rng.choice([1, 2, a, rng.randint(2, 6)])
    x = fd(torch.randn(n, d))
    mask = torch.rand(n, a) < .6
    with torch.no_grad():
        free, got = net(x), net(x, possible_actions_mask=rng.choice([lambda m: m, lambda m: m.float(), lambda m: m.long()])(mask))
    ctx.require(got.shape == free.shape, "mask-shape", "a mask changes the shape of the output", got=tuple(got.shape), want=tuple(free.shape))
    ctx.saw("masks")
    for i in range(n):
        for j in range(a):
            if mask[i, j]:
                ctx.expect(torch.equal(got[i, j], free[i, j]), "mask-possible", "the value of a possible action changes with the mask", got=got[i, j].tolist(), want=free[i, j].tolist(), mask=mask.tolist())
            else:
                ctx.expect(bool((got[i, j] < free[i, j] - 1e8).all()), "mask-impossible", "an impossible action is not penalised", got=got[i, j].tolist(), free=free[i, j].tolist(), mask=mask.tolist())


def a_dqn(ctx, rng):
    d, a, (sizes, acts) = rng.randint(1, 4), rng.randint(1, 4), hidden(rng)
    atoms, bn, dr = rng.choice([None, None, 1, 2, 3, 4]), rng.random() < .3, rng.choice([0., .4])
    net = FullyConnectedDQN(d, a, sizes, acts, num_atoms=atoms, use_batch_norm=bn, dropout_ratio=dr)
    drops(ctx, net, dr, len(sizes))
    tail = () if atoms is None else (atoms,)
    return Arch(net, states(d), lambda n: (n, a) + tail, desc=f"{d}-{sizes}-{a} atoms {atoms} bn {bn}",
                ref=lambda xs: stack(ctx, net, xs[0].float_features, sizes + [a * (atoms or 1)], acts + ["linear"], bn).reshape((-1, a) + tail), after=lambda: [masked(ctx, rng, net, d, a, atoms) for _ in range(4)])


def a_critic(ctx, rng):
    s, a, out, (sizes, acts) = rng.randint(1, 4), rng.randint(1, 4), rng.randint(1, 3), hidden(rng)
    bn, ln = rng.random() < .3, rng.random() < .4
    net = FullyConnectedCritic(s, a, sizes, acts, use_batch_norm=bn, use_layer_norm=ln, output_dim=out)
    return Arch(net, lambda n: (fd(torch.randn(n, s)), fd(torch.randn(n, a))), lambda n: (n, out), desc=f"{s}+{a}-{sizes}-{out} bn {bn} ln {ln}",
                ref=lambda xs: stack(ctx, net, torch.cat([x.float_features for x in xs], 1), sizes + [out], acts + ["linear"], bn, ln))


def dueling_after(ctx, net, xs):
    """value = mean of the action values; differences between actions are differences of advantages"""
    with torch.no_grad():
        q = net(*xs).double()
        shared = fd(net.shared_network(xs[0]))
        v, adv = net.value_network(shared).double(), net.advantage_network(shared).double()
    n = q.shape[0]
    ctx.saw("dueling")
    ctx.close(q.reshape(n, -1).mean(1), v.reshape(n, -1).mean(1), "dueling-mean", rtol=1e-4, atol=1e-4)
    ctx.close(q - q.mean(1, keepdim=True), adv - adv.mean(1, keepdim=True), "dueling-advantage", rtol=1e-4, atol=1e-4)


def dueling_ref(ctx, net, xs, d, a, sizes, acts, bn, atoms):
    emb, k = sizes[-1], atoms or 1
    s = stack(ctx, net.shared_network, xs[0].float_features, sizes[:-1] + [emb], acts[:-1] + ["linear"], bn)
    ctx.saw("dueling")
    v = stack(ctx, net.value_network, s, [emb // 2, k], acts[-1:] + ["linear"]).reshape(-1, 1, k)
    adv = stack(ctx, net.advantage_network, s, [emb // 2, a * k], acts[-1:] + ["linear"]).reshape(-1, a, k)
    q = v + adv - adv.mean(dim=(1, 2), keepdim=True)
    return q.squeeze(2) if atoms is None else q


def a_dueling(ctx, rng):
    d, a, (sizes, acts) = rng.randint(1, 4), rng.randint(1, 4), hidden(rng, 1, even=True)
    bn, atoms = rng.random() < .3, rng.choice([None, None, 1, 3])
    net = DuelingQNetwork.make_fully_connected(d, a, list(sizes), list(acts), num_atoms=atoms, use_batch_norm=bn)
    make = states(d)
    return Arch(net, make, lambda n: (n, a) + (() if atoms is None else (atoms,)), desc=f"{d}-{sizes}-{a} atoms {atoms} bn {bn}",
                ref=lambda xs: dueling_ref(ctx, net, xs, d, a, sizes, acts, bn, atoms), after=lambda: dueling_after(ctx, net, make(5)))


def a_dueling_mixed(ctx, rng):
    """parts connected by hand: an embedding front and separate heads"""
    d, a, e = rng.randint(1, 3), rng.randint(1, 4), rng.randint(1, 4)
    (s1, c1), (s2, c2), (s3, c3) = hidden(rng), hidden(rng), hidden(rng)
    net = DuelingQNetwork(shared_network=FullyConnectedDQN(d, e, s1, c1), advantage_network=FullyConnectedDQN(e, a, s2, c2), value_network=FullyConnectedDQN(e, 1, s3, c3))
    make = states(d)

    def ref(xs):
        s = stack(ctx, net.shared_network, xs[0].float_features, s1 + [e], c1 + ["linear"])
        adv = stack(ctx, net.advantage_network, s, s2 + [a], c2 + ["linear"])
        return stack(ctx, net.value_network, s, s3 + [1], c3 + ["linear"]) + adv - adv.mean(1, keepdim=True)

    return Arch(net, make, lambda n: (n, a), desc=f"{d}-{s1}-{e} adv {s2} value {s3}", ref=ref, after=lambda: dueling_after(ctx, net, make(5)))


def a_parametric_dueling(ctx, rng):
    d, a, (sizes, acts) = rng.randint(1, 4), rng.randint(1, 4), hidden(rng, 1, even=True)
    bn = rng.random() < .4
    net = ParametricDuelingQNetwork.make_fully_connected(d, a, list(sizes), list(acts), use_batch_norm=bn)

    def ref(xs):
        emb = sizes[-1]
        s = stack(ctx, net.shared_network, xs[0].float_features, sizes[:-1] + [emb], acts[:-1] + ["linear"], bn)
        v = stack(ctx, net.value_network, s, [emb // 2, 1], acts[-1:] + ["linear"])
        return v + stack(ctx, net.advantage_network, torch.cat([s, xs[1].float_features.double()], 1), [emb // 2, 1], acts[-1:] + ["linear"])

    return Arch(net, lambda n: (fd(torch.randn(n, d)), fd(torch.randn(n, a))), lambda n: (n, 1), desc=f"{d}+{a}-{sizes} bn {bn}", ref=ref)


def distributional_after(ctx, net, make, support):
    xs = make(4)
    with torch.no_grad():
        log, q = net.log_dist(*xs).double(), net(*xs).double()
    p = log.exp()
    ctx.saw("distributional")
    ctx.close(p.sum(-1), torch.ones(p.shape[:-1]), "dist-normalised", rtol=1e-4, atol=1e-5)
    ctx.close((p * support.double()).sum(-1), q, "dist-mean", rtol=1e-4, atol=1e-4)
    ctx.expect(bool((q >= support.min() - 1e-3).all() and (q <= support.max() + 1e-3).all()), "dist-range", "a value lies outside the support", q=q.tolist(), support=support.tolist())


def categorical(ctx, net, make, d, a, k, lo, hi, sizes, acts, desc):
    support = torch.tensor([lo + (hi - lo) * i / max(k - 1, 1) for i in range(k)])

    def ref(xs):
        z = stack(ctx, net, xs[0].float_features, sizes + [a * k], acts + ["linear"]).reshape(-1, a, k)
        return (torch.softmax(z, -1) * support.double()).sum(-1)

    return Arch(net, make, lambda n: (n, a), desc=desc, ref=ref, after=lambda: distributional_after(ctx, net, make, support))


def a_categorical(ctx, rng):
    d, a, k, (sizes, acts) = rng.randint(1, 4), rng.randint(1, 4), rng.choice([1, 2, 5, 11]), hidden(rng)
    lo = rng.uniform(-10, 5)
    hi = lo + rng.uniform(.1, 20)
    net = CategoricalDQN(FullyConnectedDQN(d, a, sizes, acts, num_atoms=k), qmin=lo, qmax=hi, num_atoms=k)
    return categorical(ctx, net, states(d), d, a, k, lo, hi, sizes, acts, f"{d}-{sizes}-{a} x {k} in {lo:.2f}..{hi:.2f}")


def a_bcq(ctx, rng):
    d, a, (s1, c1), (s2, c2) = rng.randint(1, 4), rng.randint(1, 5), hidden(rng), hidden(rng)
    drop = rng.choice([0., .1, .5, .9, 1.])
    net = BatchConstrainedDQN(d, FullyConnectedDQN(d, a, s1, c1), FullyConnectedNetwork([d] + s2 + [a], c2 + ["linear"]), drop)
    edge = {}

    def ref(xs):
        q = stack(ctx, net.q_network, xs[0].float_features, s1 + [a], c1 + ["linear"])
        p = torch.softmax(stack(ctx, net.imitator_network, xs[0].float_features, s2 + [a], c2 + ["linear"]), 1)
        ratio = p / p.max(1, keepdim=True)[0]
        edge["rows"] = ((ratio - drop).abs() < 1e-5) & (ratio < 1)  # too close to call
        out = ratio < drop
        ctx.saw("penalties", int(out.sum()))
        ctx.expect(bool((~out).any(1).all()), "bcq-all", "every action of a row is dropped", ratio=ratio.tolist())
        return torch.where(out, q - 1e10, q)

    return Arch(net, states(d), lambda n: (n, a), desc=f"{d}-{s1}-{a} imitator {s2} drop {drop}", ref=ref, fuzzy=lambda: edge["rows"], tol=1e-4)


def feature_config(rng):
    tables = {f"t{i}": rlt.IdMapping(ids=rng.sample(range(1000), rng.randint(1, 6))) for i in range(rng.randint(1, 3))}
    ids = rng.sample(range(100, 999), 6)
    a, b = rng.choice([(0, 1), (1, 0), (2, 1), (1, 2), (3, 3)])
    pick = lambda: rng.choice(list(tables))
    return rlt.ModelFeatureConfig(
        float_feature_infos=[], id_mapping_config=tables,
        id_list_feature_configs=[rlt.IdListFeatureConfig(name=f"z{ids[i]}", feature_id=ids[i], id_mapping_name=pick()) for i in range(a)],
        id_score_list_feature_configs=[rlt.IdScoreListFeatureConfig(name=f"a{ids[3 + i]}", feature_id=ids[3 + i], id_mapping_name=pick()) for i in range(b)])


def sparse_io(rng, cfg, d):
    """rows of lists of ids and how to turn any choice of rows into a feature batch"""
    def make(n):
        rows = []
        for _ in range(n):
            r = {"float": torch.randn(d)}
            for c in cfg.id_list_feature_configs:
                r[c.name] = [rng.randrange(cfg.id_mapping_config[c.id_mapping_name].table_size) for _ in range(rng.choice([0, 1, 1, 2, 4]))]
            for c in cfg.id_score_list_feature_configs:
                r[c.name] = [(rng.randrange(cfg.id_mapping_config[c.id_mapping_name].table_size), rng.uniform(-2, 2)) for _ in range(rng.choice([0, 1, 1, 2, 4]))]
            rows.append(r)
        return rows

    def batch(rows):
        names = lambda cs: rng.sample([c.name for c in cs], len(cs))
        off = lambda k: torch.tensor([sum(len(r[k]) for r in rows[:i]) for i in range(len(rows))])
        return rlt.FeatureData(
            float_features=torch.stack([r["float"] for r in rows]),
            id_list_features={k: (off(k), torch.tensor([i for r in rows for i in r[k]], dtype=torch.long)) for k in names(cfg.id_list_feature_configs)},
            id_score_list_features={k: (off(k), torch.tensor([i for r in rows for i, _ in r[k]], dtype=torch.long), torch.tensor([w for r in rows for _, w in r[k]])) for k in names(cfg.id_score_list_feature_configs)})

    return make, batch


def embed_ref(ctx, emb, cfg, rows):
    out = []
    for r in rows:
        parts = []
        for c in cfg.id_list_feature_configs:
            t = emb.embedding_bags[c.id_mapping_name].weight.double()
            parts.append(sum((t[i] for i in r[c.name]), torch.zeros(t.shape[1]).double()))
        for c in cfg.id_score_list_feature_configs:
            t = emb.embedding_bags[c.id_mapping_name].weight.double()
            parts.append(sum((t[i] * w for i, w in r[c.name]), torch.zeros(t.shape[1]).double()))
        ctx.saw("embeddings")
        out.append(torch.cat(parts + [r["float"].double()]))
    return torch.stack(out)


def a_embedding(ctx, rng):
    d, e, cfg = rng.randint(1, 3), rng.randint(1, 4), feature_config(rng)
    net = EmbeddingBagConcat(d, cfg, e)
    make, batch = sparse_io(rng, cfg, d)
    k = len(cfg.id_list_feature_configs) + len(cfg.id_score_list_feature_configs)
    ctx.expect(net.output_dim == d + k * e, "embedding-dim", "the declared width is not that of the features", got=net.output_dim, want=d + k * e)
    return Arch(net, make, lambda n: (n, d + k * e), desc=f"{d}+{k}x{e}", ref=lambda rows: embed_ref(ctx, net, cfg, rows), pick=lambda rows, ix: [rows[i] for i in ix.tolist()],
                out=lambda rows, net=net: net(batch(rows)))


def a_conv(ctx, rng):
    k = rng.randint(1, 2)
    dims = [rng.randint(1, 2) for _ in range(k + 1)]
    h, w = rng.randint(12, 16), rng.randint(12, 16)
    hk, wk, pool = [rng.randint(1, 3) for _ in range(k)], [rng.randint(1, 3) for _ in range(k)], [rng.randint(1, 2) for _ in range(k)]
    p = types.SimpleNamespace(conv_dims=dims, conv_height_kernels=hk, conv_width_kernels=wk, pool_types=["max"] * k, pool_kernels_strides=pool, num_input_channels=dims[0], input_height=h, input_width=w)
    sizes, acts = hidden(rng)
    out = rng.randint(1, 3)
    net = ConvolutionalNetwork(p, [-1] + sizes + [out], acts + ["linear"])

    def ref(xs):
        x = xs[0].double()
        for c, ph in zip(leaves(net, nn.Conv2d), pool):
            kh, kw = c.kernel_size
            n, _, hh, ww = x.shape
            cols = F.unfold(x, (kh, kw)).transpose(1, 2) @ c.weight.double().reshape(c.out_channels, -1).t() + c.bias.double()
            x = torch.relu(cols.transpose(1, 2).reshape(n, c.out_channels, hh - kh + 1, ww - kw + 1))
            th, tw = x.shape[2] // ph, x.shape[3] // ph
            x = x[:, :, : th * ph, : tw * ph].reshape(n, c.out_channels, th, ph, tw, ph).amax(dim=(3, 5))
        return stack(ctx, net.feed_forward, x.reshape(x.shape[0], -1), sizes + [out], acts + ["linear"])

    return Arch(net, lambda n: (torch.randn(n, dims[0], h, w),), lambda n: (n, out), desc=f"{dims} {h}x{w} {hk}/{wk} pool {pool} {sizes}", ref=ref, proto=False, tol=1e-3)


def a_scorer(ctx, rng):
    concat, log, out = rng.random() < .5, rng.random() < .4, rng.choice([1, 1, 2])
    s, c, docs = rng.randint(1, 3), rng.randint(1, 3), rng.randint(2, 4)
    sizes = [rng.choice([1, 3, 5]) for _ in range(rng.randint(0, 2))]
    kw = {} if not sizes and rng.random() < .5 else dict(layer_sizes=sizes)
    net = MLPScorer(input_dim=s + c if concat else c, output_dim=out, concat=concat, log_transform=log, **kw)
    f = (lambda *d: torch.rand(*d) * 2 + .05) if log else torch.randn
    make = lambda n: (f(n, s), f(n, docs, c))
    cand = lambda xs: rlt.FeatureData(float_features=xs[0], candidate_docs=rlt.DocList(float_features=xs[1]))

    def ref(xs):
        u, v = xs[0].double(), xs[1].double()
        if log:
            u, v = u.log(), v.log()
        if concat:
            v = torch.cat([u[:, None, :].expand(-1, docs, -1), v], 2)
        y = stack(ctx, net, v, sizes + [out], ["relu"] * len(sizes) + ["linear"])
        return y.squeeze(-1) if out == 1 else y

    return Arch(net, make, lambda n: (n, docs) + (() if out == 1 else (out,)), desc=f"{s}/{c} x{docs} concat {concat} log {log} {sizes}-{out}", ref=ref, out=lambda xs, net=net: net(cand(xs)),
                proto=lambda y: y.dim() == (2 if out == 1 else 3))


# ---------------------------------------------------------------- actors
def actor_after(ctx, rng, net, make, a, kind, opts):
    """what a stochastic policy returns: declared shape, range and simplex, in inference and in training mode"""
    for mode in (False, True):
        net.train(mode)
        n = rng.randint(2, 6)
        with torch.no_grad():
            o = net(*make(n))
        ctx.saw("stochastic")
        ctx.require(tuple(o.action.shape) == (n, a), "actor-shape", "an action has the wrong shape", got=tuple(o.action.shape), want=(n, a))
        if o.log_prob is not None or mode or kind != "dirichlet":
            ctx.expect(tuple(o.log_prob.shape) == (n, 1), "actor-log-prob", "log-probabilities are not one per row", got=tuple(o.log_prob.shape), want=(n, 1))
        if kind == "dirichlet":
            ctx.expect(bool((o.action >= 0).all()), "actor-simplex", "a share is negative", action=o.action.tolist())
            ctx.close(o.action.sum(1), torch.ones(n), "actor-simplex", rtol=1e-4, atol=1e-4)
        elif kind == "gauss" and opts.get("l2"):
            ctx.close((o.action ** 2).sum(1), torch.ones(n), "actor-l2", rtol=1e-3, atol=1e-3)
            ctx.close((o.squashed_mean ** 2).sum(1), torch.ones(n), "actor-l2", rtol=1e-3, atol=1e-3)
        elif kind == "gauss" or opts.get("noise"):
            ctx.expect(bool((o.action.abs() <= 1).all()), "actor-range", "an action leaves [-1, 1]", action=o.action.tolist())
        if kind == "plain" and not opts.get("noise"):
            ctx.expect(bool((o.log_prob == 0).all()), "actor-deterministic", "a deterministic policy reports a log-probability", got=o.log_prob.tolist())
    net.eval()
    if opts.get("noise"):
        x = make(1)
        with torch.no_grad():
            many = torch.cat([net(*x).action for _ in range(40)])
        ctx.expect(len(many.unique(dim=0)) > 1 or bool((many.abs() == 1).all()), "actor-noise", "exploration noise does not vary the action", got=many[:3].tolist())


def gauss(ctx, rng, net, d, a, sizes, acts, bn, ln, l2):
    def ref(xs):
        norms = leaves(net, nn.LayerNorm)
        extra = [m for m in norms if m not in leaves(net.fc, nn.LayerNorm)]
        z = stack(ctx, net.fc, xs[0].float_features, sizes + [2 * a], acts + ["linear"], bn, ln)
        loc = z[:, :a]
        ctx.expect(len(extra) == (2 if ln else 0), "option-layer-norm", "the heads' normalisation does not follow the option", got=len(extra), option=ln)
        if ln:
            m = net.loc_layer_norm
            c = loc - loc.mean(1, keepdim=True)
            loc = c / ((c ** 2).mean(1, keepdim=True) + m.eps).sqrt() * m.weight.double() + m.bias.double()
        t = torch.tanh(loc).clamp(-1 + 1e-6, 1 - 1e-6)
        return t / (t ** 2).sum(1, keepdim=True).sqrt() if l2 else t

    make = states(d)
    return Arch(net, make, lambda n: (n, a), desc=f"gauss {d}-{sizes}-{a} bn {bn} ln {ln} l2 {l2}", ref=ref, out=lambda xs, net=net: net(*xs).squashed_mean, tol=1e-3,
                after=lambda: actor_after(ctx, rng, net, make, a, "gauss", dict(l2=l2)))


def plain(ctx, rng, net, d, a, sizes, acts, last, bn, ln, noise):
    make = states(d)
    ref = lambda xs: stack(ctx, net.fc, xs[0].float_features, sizes + [a], acts + [last], bn, ln)
    # with noise the deterministic part is what is compared
    out = (lambda xs, net=net: net.fc(xs[0].float_features)) if noise else (lambda xs, net=net: net(*xs).action)
    return Arch(net, make, lambda n: (n, a), desc=f"actor {d}-{sizes}-{a} {last} bn {bn} ln {ln} noise {noise}", ref=ref, out=out, after=lambda: actor_after(ctx, rng, net, make, a, "plain", dict(noise=noise)))


def dirichlet(ctx, rng, net, d, a, sizes, acts, bn):
    make = states(d)
    return Arch(net, make, lambda n: (n, a), desc=f"dirichlet {d}-{sizes}-{a} bn {bn}", ref=lambda xs: stack(ctx, net.fc, xs[0].float_features, sizes + [a], acts + ["linear"], bn),
                out=lambda xs, net=net: net.fc(xs[0].float_features), after=lambda: actor_after(ctx, rng, net, make, a, "dirichlet", {}))


def a_gauss(ctx, rng):
    d, a, (sizes, acts) = rng.randint(1, 4), rng.randint(2, 4), hidden(rng)
    o = dict(use_batch_norm=rng.random() < .3, use_layer_norm=rng.random() < .4, use_l2_normalization=rng.random() < .3)
    return gauss(ctx, rng, GaussianFullyConnectedActor(d, a, sizes, acts, **o), d, a, sizes, acts, *o.values())


def a_actor(ctx, rng):
    d, a, (sizes, acts) = rng.randint(1, 4), rng.randint(1, 4), hidden(rng)
    bn, noise, last = rng.random() < .3, rng.choice([None, .1, 1.]), rng.choice(["tanh", "linear", "sigmoid"])
    return plain(ctx, rng, FullyConnectedActor(d, a, sizes, acts, use_batch_norm=bn, action_activation=last, exploration_variance=noise), d, a, sizes, acts, last, bn, False, noise)


def a_dirichlet(ctx, rng):
    d, a, (sizes, acts), bn = rng.randint(1, 4), rng.randint(2, 4), hidden(rng), rng.random() < .3
    return dirichlet(ctx, rng, DirichletFullyConnectedActor(d, a, sizes, acts, use_batch_norm=bn), d, a, sizes, acts, bn)


# ---------------------------------------------------------------- net builders
def pickb(rng, union, names=None):
    """a builder class of this union"""
    cls = {f: t for f, t in union.__annotations__.items()} if names is None else names
    return cls[rng.choice(sorted(cls))]


def opts(rng, cls, even=False, lo=0):
    """random values of the options this builder declares"""
    sizes, acts = hidden(rng, lo, even)
    have = cls.__dataclass_fields__
    kw = dict(sizes=sizes, activations=acts)
    for k, v in dict(use_batch_norm=rng.random() < .5, use_layer_norm=rng.random() < .5, dropout_ratio=rng.choice([0., .25]), use_l2_normalization=rng.random() < .3,
                     exploration_variance=rng.choice([None, .2]), action_activation=rng.choice(["tanh", "linear", "sigmoid"]), embedding_dim=rng.randint(1, 4)).items():
        if k in have:
            kw[k] = v
    return kw


def b_discrete(ctx, rng):
    name = rng.choice(["Dueling", "FullyConnected", "FullyConnectedWithEmbedding"])
    cls = U.DiscreteDQNNetBuilder__Union.__annotations__ and {c.__name__: c for c in U.DiscreteDQNNetBuilder.REGISTRY.values()}[name]
    kw = opts(rng, cls, even=name == "Dueling", lo=1 if name == "Dueling" else 0)
    nd, d = norm(rng)
    a = rng.randint(1, 4)
    cfg = feature_config(rng) if name == "FullyConnectedWithEmbedding" else rlt.ModelFeatureConfig(float_feature_infos=[])
    b = cls(**kw)
    net = b.build_q_network(cfg, nd, a)
    desc, sizes, acts = f"{name} {kw} {d}-{a}", kw["sizes"], kw["activations"]
    if name == "Dueling":
        make = states(d)
        return Arch(net, make, lambda n: (n, a), ref=lambda xs: dueling_ref(ctx, net, xs, d, a, sizes, acts, False, None), desc=desc, after=lambda: dueling_after(ctx, net, make(4)))
    drops(ctx, net, kw["dropout_ratio"], len(sizes))
    if name == "FullyConnected":
        return Arch(net, states(d), lambda n: (n, a), ref=lambda xs: stack(ctx, net, xs[0].float_features, sizes + [a], acts + ["linear"], kw["use_batch_norm"]), desc=desc)
    make, batch = sparse_io(rng, cfg, d)
    emb = leaves(net, EmbeddingBagConcat)[0]
    return Arch(net, make, lambda n: (n, a), desc=desc, pick=lambda rows, ix: [rows[i] for i in ix.tolist()], out=lambda rows, net=net: net(batch(rows)),
                ref=lambda rows: stack(ctx, net, embed_ref(ctx, emb, cfg, rows), sizes + [a], acts + ["linear"]))


def named(base, name):
    return {c.__name__: c for c in base.REGISTRY.values()}[name]


def b_categorical(ctx, rng):
    kw = opts(rng, named(U.CategoricalDQNNetBuilder, "Categorical"))
    nd, d = norm(rng)
    a, k, lo = rng.randint(1, 3), rng.choice([2, 5]), rng.randint(-10, 5)
    hi = lo + rng.randint(1, 20)
    net = named(U.CategoricalDQNNetBuilder, "Categorical")(**kw).build_q_network(nd, a, k, lo, hi)
    return categorical(ctx, net, states(d), d, a, k, lo, hi, kw["sizes"], kw["activations"], f"Categorical {kw} {d}-{a}x{k} {lo}..{hi}")


def b_quantile(ctx, rng):
    name = rng.choice(["Quantile", "DuelingQuantile"])
    duel = name == "DuelingQuantile"
    kw = opts(rng, named(U.QRDQNNetBuilder, name), even=duel, lo=int(duel))
    nd, d = norm(rng)
    a, k = rng.randint(1, 3), rng.choice([1, 2, 5])
    net = named(U.QRDQNNetBuilder, name)(**kw).build_q_network(nd, a, k)
    sizes, acts, desc = kw["sizes"], kw["activations"], f"{name} {kw} {d}-{a}x{k}"
    make = states(d)
    if duel:
        return Arch(net, make, lambda n: (n, a, k), ref=lambda xs: dueling_ref(ctx, net, xs, d, a, sizes, acts, False, k), desc=desc, after=lambda: dueling_after(ctx, net, make(4)))
    drops(ctx, net, kw["dropout_ratio"], len(sizes))
    return Arch(net, make, lambda n: (n, a, k), ref=lambda xs: stack(ctx, net, xs[0].float_features, sizes + [a * k], acts + ["linear"]).reshape(-1, a, k), desc=desc)


def b_parametric(ctx, rng):
    cls = named(U.ParametricDQNNetBuilder, "FullyConnected")
    kw, (ns, s), (na, a), out = opts(rng, cls), norm(rng), norm(rng), rng.randint(1, 3)
    net = cls(**kw).build_q_network(ns, na) if out == 1 else cls(**kw).build_q_network(ns, na, output_dim=out)
    return Arch(net, lambda n: (fd(torch.randn(n, s)), fd(torch.randn(n, a))), lambda n: (n, out), desc=f"Parametric {kw} {s}+{a}-{out}",
                ref=lambda xs: stack(ctx, net, torch.cat([x.float_features for x in xs], 1), kw["sizes"] + [out], kw["activations"] + ["linear"], kw["use_batch_norm"], kw["use_layer_norm"]))


def b_value(ctx, rng):
    cls = named(U.ValueNetBuilder, "FullyConnected")
    kw, (nd, d), out = opts(rng, cls), norm(rng), rng.randint(1, 3)
    net = cls(**kw).build_value_network(nd) if out == 1 else cls(**kw).build_value_network(nd, output_dim=out)
    return Arch(net, lambda n: (torch.randn(n, d),), lambda n: (n, out), desc=f"Value {kw} {d}-{out}", ref=lambda xs: stack(ctx, net, xs[0], kw["sizes"] + [out], kw["activations"] + ["linear"], False, kw["use_layer_norm"]))


def b_discrete_actor(ctx, rng):
    cls = named(U.DiscreteActorNetBuilder, "FullyConnected")
    kw, (nd, d), a = opts(rng, cls), norm(rng), rng.randint(1, 4)
    net = cls(**kw).build_actor(nd, a)
    return plain(ctx, rng, net, d, a, kw["sizes"], kw["activations"], kw["action_activation"], kw["use_batch_norm"], kw["use_layer_norm"], kw["exploration_variance"])


def b_continuous_actor(ctx, rng):
    name = rng.choice(["FullyConnected", "GaussianFullyConnected", "DirichletFullyConnected"])
    cls = named(U.ContinuousActorNetBuilder, name)
    kw, (ns, d), (na, a) = opts(rng, cls), norm(rng), norm(rng)
    net = cls(**kw).build_actor(ns, na)
    if name == "FullyConnected":
        return plain(ctx, rng, net, d, a, kw["sizes"], kw["activations"], kw["action_activation"], kw["use_batch_norm"], kw["use_layer_norm"], kw["exploration_variance"])
    if name == "GaussianFullyConnected":
        if a == 1:
            net.eval()  # normalising a single number loses its scale: nothing to compare
        return gauss(ctx, rng, net, d, a, kw["sizes"], kw["activations"], kw["use_batch_norm"], kw["use_layer_norm"], kw["use_l2_normalization"])
    return dirichlet(ctx, rng, net, d, a, kw["sizes"], kw["activations"], kw["use_batch_norm"])


def b_seq2reward(ctx, rng):
    """a recurrent value network: the reward after the valid steps, whatever follows them"""
    cls = named(U.ValueNetBuilder, "Seq2RewardNetBuilder")
    (nd, d), a, T = norm(rng), rng.randint(1, 3), rng.randint(1, 5)
    kw = dict(action_dim=a, num_hiddens=rng.randint(1, 5), num_hidden_layers=rng.randint(1, 2))
    net = cls(**kw).build_value_network(nd)

    def make(n):
        return (torch.randn(n, T, d), torch.randn(n, T, a), torch.randint(1, T + 1, (n,)))

    def out(xs, net=net):
        s, act, k = xs
        y = net(fd(s.transpose(0, 1)), fd(act.transpose(0, 1)), k).acc_reward
        junk = act.clone()
        for i, m in enumerate(k.tolist()):
            junk[i, m:] = 99.
        with torch.no_grad():
            ctx.close(net(fd(s.transpose(0, 1)), fd(junk.transpose(0, 1)), k).acc_reward, y.detach(), "sequence-tail", rtol=1e-4, atol=1e-5)
            if bool((k == T).all()):
                ctx.close(net(fd(s.transpose(0, 1)), fd(act.transpose(0, 1))).acc_reward, y.detach(), "sequence-end", rtol=1e-4, atol=1e-5)
        return y

    def ref(xs):
        s, act, k = (x.double() for x in xs)
        H, L = kw["num_hiddens"], kw["num_hidden_layers"]
        p = {n: t.double() for n, t in net.rnn.named_parameters()}
        ctx.require(len(p) == 4 * L and p["weight_hh_l0"].shape == (4 * H, H), "recurrent-size", "the recurrent part is not as configured", got={n: tuple(t.shape) for n, t in p.items()}, want=kw)
        h0 = s[:, 0] @ net.map_linear.weight.double().t() + net.map_linear.bias.double()
        h, c, last = [h0] * L, [torch.zeros_like(h0)] * L, torch.zeros_like(h0)
        for t in range(act.shape[1]):
            x = act[:, t]
            for l in range(L):
                i, f, g, o = (x @ p[f"weight_ih_l{l}"].t() + p[f"bias_ih_l{l}"] + h[l] @ p[f"weight_hh_l{l}"].t() + p[f"bias_hh_l{l}"]).chunk(4, 1)
                c[l] = f.sigmoid() * c[l] + i.sigmoid() * g.tanh()
                h[l] = x = o.sigmoid() * c[l].tanh()
            last = torch.where((k == t + 1)[:, None], x, last)
        return last @ net.lstm_linear.weight.double().t() + net.lstm_linear.bias.double()

    return Arch(net, make, lambda n: (n, 1), desc=f"Seq2Reward {kw} {d} x{T}", ref=ref, out=out)


def b_slate_reward(ctx, rng):
    s, c, src = rng.randint(1, 3), rng.randint(1, 3), rng.randint(2, 4)
    tgt = rng.randint(1, src)
    heads = rng.choice([1, 2])
    dim = heads * rng.choice([2, 4])
    if rng.random() < .5:
        b = slate_reward_gru.SlateRewardGRU(gru=GRUParameters(dim_model=dim, num_stacked_layers=rng.choice([1, 2])), fit_slate_wise_reward=rng.random() < .5)
    else:
        b = slate_reward_transformer.SlateRewardTransformer(transformer=TransformerParameters(num_heads=heads, dim_model=dim, dim_feedforward=rng.choice([4, 8]), num_stacked_layers=rng.choice([1, 2])),
                                                            fit_slate_wise_reward=rng.random() < .5)
    net = b.build_slate_reward_network(s, c, src, tgt)
    ctx.expect(b.expect_slate_wise_reward == b.fit_slate_wise_reward, "slate-wise", "the builder does not declare the configured reward kind", got=b.expect_slate_wise_reward)

    def make(n):
        return (torch.randn(n, s), torch.randn(n, src, c), torch.stack([torch.randperm(src)[:tgt] for _ in range(n)]))

    def out(xs, net=net):
        return net(rlt.PreprocessedRankingInput.from_input(state=xs[0], candidates=xs[1], device=torch.device("cpu"), action=xs[2])).predicted_reward

    return Arch(net, make, lambda n: (n, 1), desc=f"{type(b).__name__} {s}/{c} {src}->{tgt} dim {dim}", out=out, proto=lambda y: tuple(y.predicted_reward.shape) == (1, 1), tol=1e-3)


DIRECT = [a_fc, a_dqn, a_critic, a_dueling, a_dueling_mixed, a_parametric_dueling, a_categorical, a_bcq, a_embedding, a_conv, a_scorer, a_gauss, a_actor, a_dirichlet]
BUILT = [b_discrete, b_discrete, b_categorical, b_quantile, b_parametric, b_value, b_discrete_actor, b_continuous_actor, b_continuous_actor, b_seq2reward, b_slate_reward]


# ---------------------------------------------------------------- the monitors
def same(ctx, got, want, arch, mech, msg, **w):
    g, v = got.double(), want.double()
    ok = g.shape == v.shape
    if ok:
        scale = 1 + v[v.abs() < 1e8].abs().max().item() if (v.abs() < 1e8).any() else 1
        bad = ((g - v).abs() > arch.tol * (scale + v.abs()))
        if arch.fuzzy is not None and "ref" in mech:
            bad &= ~arch.fuzzy()
        ok = not bool(bad.any()) and bool(torch.isfinite(g).all())
    return ctx.expect(ok, mech, msg, got=got.flatten()[:8].tolist(), want=want.flatten()[:8].tolist(), shapes=[tuple(got.shape), tuple(want.shape)], network=arch.desc, **w)


def flat(xs):
    for x in xs:
        if isinstance(x, torch.Tensor):
            yield x
        elif isinstance(x, rlt.FeatureData):
            yield x.float_features


def monitor(ctx, rng, arch):
    net = arch.net
    randomise(net, rng.randrange(1 << 30))
    net.eval()
    before = {k: v.clone() for k, v in net.state_dict().items()}
    for n in [1, 2, rng.randint(3, 7)]:
        xs = arch.make(n)
        kept = [x.clone() for x in flat(xs)]
        with torch.no_grad():
            y = arch.out(xs)
            again = arch.out(xs)
            ctx.saw("shapes")
            ctx.require(tuple(y.shape) == tuple(arch.shape(n)), "shape", "the output does not have the declared shape", got=tuple(y.shape), want=tuple(arch.shape(n)), network=arch.desc)
            ctx.expect(y.dtype == torch.float32, "dtype", "the output is not in single precision", got=str(y.dtype), network=arch.desc)
            ctx.expect(torch.equal(y, again), "repeatable", "evaluating the same rows twice gives different outputs", got=again.flatten()[:8].tolist(), want=y.flatten()[:8].tolist(), network=arch.desc)
            ctx.expect(all(torch.equal(a, b) for a, b in zip(kept, flat(xs))), "inputs-changed", "evaluation changes its inputs", network=arch.desc)
            if arch.ref is not None:
                ctx.saw("references")
                same(ctx, y, arch.ref(xs), arch, "ref", "the output is not what the parameters and options define", rows=n)
            perm = torch.randperm(n)
            for label, rows in [("alone", perm[:1]), ("permuted", perm), ("repeated", torch.randint(0, n, (n + 3,)))]:
                ctx.saw("row_checks")
                same(ctx, arch.out(arch.pick(xs, rows)), y[rows], arch, f"row-{label}", "a row's output depends on the other rows of its batch", rows=rows.tolist())
    after = net.state_dict()
    ctx.expect(list(before) == list(after) and all(torch.equal(before[k], after[k]) for k in before), "state-changed", "evaluation changes the network", network=arch.desc)
    prototype(ctx, arch)
    copies(ctx, rng, arch)
    if arch.after is not None:
        arch.after()


def prototype(ctx, arch):
    if not arch.proto:
        return
    p = arch.net.input_prototype()
    with torch.no_grad():
        y = arch.net(*p) if isinstance(p, tuple) else arch.net(p)
    ctx.saw("prototypes")
    if callable(arch.proto):
        ctx.expect(arch.proto(y), "prototype", "the network does not evaluate its own input prototype", network=arch.desc)
    elif isinstance(y, torch.Tensor):
        ctx.expect(tuple(y.shape) == tuple(arch.shape(1)), "prototype", "the network's input prototype does not give the declared output", got=tuple(y.shape), want=tuple(arch.shape(1)), network=arch.desc)


def copies(ctx, rng, arch):
    net = arch.net
    if not hasattr(net, "get_target_network"):
        return
    xs = arch.make(3)
    with torch.no_grad():
        y = arch.out(xs)
        target, cpu = net.get_target_network(), net.cpu_model()
        for name, other in (("target", target), ("cpu", cpu)):
            same(ctx, arch.out(xs, other), y, arch, f"{name}-output", "the copy does not evaluate like the network")
            mine = {p.data_ptr() for p in net.parameters()}
            ctx.expect(not any(p.data_ptr() in mine for p in other.parameters()), f"{name}-shared", "the copy shares parameters with the network", network=arch.desc)
            ctx.expect([n for n, _ in other.named_parameters()] == [n for n, _ in net.named_parameters()], f"{name}-names", "the copy's parameters are not the network's", network=arch.desc)
            ctx.saw("targets")
        saved = {k: v.clone() for k, v in net.state_dict().items()}
        for p in target.parameters():
            p.add_(1)
        same(ctx, arch.out(xs), y, arch, "target-write", "writing the target network changes the network")
        for p in net.parameters():
            p.mul_(.5)
        same(ctx, arch.out(xs, cpu), y, arch, "network-write", "writing the network changes its copy")
        net.load_state_dict(saved)
        same(ctx, arch.out(xs), y, arch, "restore", "restoring the parameters does not restore the output")


def training(ctx, rng, make):
    """in training mode: gradients reach every parameter that is used, batch statistics and dropout are active"""
    arch = make(ctx, rng)
    net = arch.net
    randomise(net, rng.randrange(1 << 30))
    net.train()
    xs = arch.make(8)
    y = arch.out(xs)
    ctx.require(tuple(y.shape) == tuple(arch.shape(8)), "train-shape", "the training output does not have the declared shape", got=tuple(y.shape), want=tuple(arch.shape(8)), network=arch.desc)
    (y[y.abs() < 1e8] * torch.randn(y.shape)[y.abs() < 1e8]).sum().backward()
    moving = bool((y.detach() != y.detach()[:1]).any())  # not all units are dead
    ctx.expect(not moving or any(p.grad is not None and bool((p.grad != 0).any()) for p in net.parameters()), "train-gradient", "no gradient reaches the network", network=arch.desc)
    ctx.saw("train_mode")
    for m in leaves(net, nn.BatchNorm1d):
        ctx.expect(m.num_batches_tracked.item() > 0, "train-statistics", "training does not update the batch statistics", network=arch.desc)


def tables(ctx, rng):
    """a table exempt from soft updates is shared by the target network; everything else is independent"""
    n, e, a = rng.randint(2, 6), rng.randint(1, 4), rng.randint(1, 3)

    class Front(FullyConnectedDQN):
        def __init__(self):
            super().__init__(e, a, [3], ["relu"])
            self.table = NoSoftUpdateEmbedding(n, e)

        def forward(self, ids):
            return super().forward(fd(self.table(ids)))

    net = Front()
    target = net.get_target_network()
    ids = torch.randint(0, n, (5,))
    with torch.no_grad():
        ctx.expect(torch.equal(net(ids), target(ids)), "table-output", "the target network does not evaluate like the network")
        net.table.weight.mul_(1.7)
        ctx.expect(torch.equal(net(ids), target(ids)), "table-shared", "the target network does not follow the shared table")
        own = {p.data_ptr() for p in net.fc.parameters()}
        ctx.expect(not any(p.data_ptr() in own for p in target.fc.parameters()), "table-rest", "more than the table is shared")
    ctx.saw("shared_tables")


def refused(ctx, rng):
    """impossible architectures are refused"""
    d, a = rng.randint(1, 3), rng.randint(1, 3)
    bad = [lambda: FullyConnectedDQN(0, a, [], []), lambda: FullyConnectedDQN(d, 0, [], []), lambda: FullyConnectedDQN(d, a, [2], []), lambda: FullyConnectedCritic(d, 0, [], []),
           lambda: FullyConnectedCritic(d, a, [2, 2], ["relu"]), lambda: GaussianFullyConnectedActor(d, a, [2], []), lambda: FullyConnectedActor(d, a, [], [], exploration_variance=-1.), lambda: EmbeddingBagConcat(0, feature_config(rng), 2),
           lambda: DuelingQNetwork.make_fully_connected(d, a, [3], ["relu"]), lambda: DuelingQNetwork.make_fully_connected(d, a, [], []),
           lambda: DuelingQNetwork(shared_network=FullyConnectedDQN(d, 3, [], []), advantage_network=FullyConnectedDQN(2, a, [], []), value_network=FullyConnectedDQN(3, 1, [], [])),
           lambda: named(U.ParametricDQNNetBuilder, "FullyConnected")(sizes=[2], activations=[]), lambda: named(U.DiscreteDQNNetBuilder, "Dueling")(sizes=[2], activations=[]),
           lambda: named(U.ValueNetBuilder, "FullyConnected")(sizes=[2], activations=["relu", "relu"])]
    for i, f in enumerate(bad):
        try:
            f()
            ok = False
        except Exception:
            ok = True
        ctx.expect(ok, "refused", "an impossible architecture is accepted", case=i)


def run(ctx):
    with ctx.part("networks"):
        for i in range(ctx.n(15, 150)):
            for k, make in enumerate(DIRECT + BUILT):
                rng = ctx.sub(f"{make.__name__}{k}.{i}")
                ctx.seed_all(f"{make.__name__}{k}.{i}")
                with ctx.case(make.__name__, f"{k}.{i}"):
                    ctx.saw("networks")
                    if make in BUILT:
                        ctx.saw("builders")
                    monitor(ctx, rng, make(ctx, rng))
    with ctx.part("training mode"):
        for i in range(ctx.n(4, 40)):
            for k, make in enumerate(DIRECT + BUILT):
                rng = ctx.sub(f"train{make.__name__}{k}.{i}")
                ctx.seed_all(f"train{make.__name__}{k}.{i}")
                with ctx.case("train-" + make.__name__, f"{k}.{i}"):
                    training(ctx, rng, make)
    with ctx.part("tables"):
        for i in range(ctx.n(6, 30)):
            rng = ctx.sub(f"tables{i}")
            ctx.seed_all(f"tables{i}")
            with ctx.case("tables", f"{i}"):
                tables(ctx, rng)
            with ctx.case("refused", f"{i}"):
                refused(ctx, rng)
