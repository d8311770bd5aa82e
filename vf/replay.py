"""Shadow history of a replay buffer: an independent list of everything that was added,
and a declarative account of which steps are complete and what a sample must contain."""
import numpy as np
import torch


class Shadow:
    def __init__(self, capacity, stack, horizon, gamma):
        self.capacity, self.stack, self.horizon, self.gamma = capacity, stack, horizon, gamma
        self.log = []  # every slot ever written: None (padding) or dict(fields)
        self.fresh = True

    def add(self, **fields):
        if self.fresh:
            self.log.extend([None] * (self.stack - 1))
        self.log.append(fields)
        self.fresh = bool(fields["terminal"])

    # ---------------------------------------------------------------- validity
    @property
    def total(self):
        return len(self.log)

    @property
    def oldest(self):
        return max(0, self.total - self.capacity)

    def steps(self, a):
        """(k, ended): number of steps until the episode end or the horizon; None if the window
        is not complete yet."""
        for k in range(1, self.horizon + 1):
            j = a + k - 1
            if j >= self.total:
                return None
            if self.log[j]["terminal"]:
                return k, True
        if a + self.horizon >= self.total:
            return None
        return self.horizon, False

    def is_valid(self, a):
        if a < self.oldest or a >= self.total or self.log[a] is None:
            return False
        if a - (self.stack - 1) < self.oldest:
            return False
        return self.steps(a) is not None

    def valid(self):
        """{buffer index: absolute position} of the sampleable steps."""
        return {a % self.capacity: a for a in range(self.oldest, self.total) if self.is_valid(a)}

    def where(self, index):
        a = self.total - 1 - (self.total - 1 - index) % self.capacity
        return a

    # ---------------------------------------------------------------- content
    def stacked(self, key, a, shape, dtype):
        """The frames a-stack+1..a, oldest first on the last axis; zeros before the episode."""
        cols = []
        for j in range(a - self.stack + 1, a + 1):
            rec = self.log[j] if j >= 0 else None
            cols.append(np.zeros(shape, dtype) if rec is None else np.asarray(rec[key], dtype))
        return cols[0] if self.stack == 1 else np.stack(cols, axis=-1)


def storage_dtype(example):
    d = np.array(example).dtype
    return np.dtype("float32") if d == np.dtype("float64") else d


TORCH_DTYPE = {
    np.dtype("float32"): torch.float32, np.dtype("int64"): torch.int64, np.dtype("uint8"): torch.uint8,
    np.dtype("bool"): torch.bool, np.dtype("int32"): torch.int32, np.dtype("int8"): torch.int8,
}

DENSE_KINDS = [
    ((), "float"), ((3,), "float32"), ((2, 2), "float64"), ((), "int"), ((2,), "int64"), ((4,), "uint8"), ((), "bool"), ((3,), "bool"),
    ((1,), "float32"), ((2, 1), "float32"),
]


class Fields:
    """A randomly chosen transition signature and a generator of uniquely tagged transitions."""

    def __init__(self, rng, sparse=False, extras=True):
        self.rng = rng
        self.obs_kind = rng.choice([((), "float"), ((1,), "float32"), ((3,), "float32"), ((2, 3), "float64"), ((4,), "uint8"), ((2,), "int64"), ((2, 2, 2), "float32")])
        self.act_kind = rng.choice([((), "int"), ((2,), "float32"), ((), "float"), ((1,), "float32"), ((3,), "int64")])
        self.rew_kind = ((), rng.choice(["float", "float", "float32", "int"]))
        self.term_kind = rng.choice(["bool", "npbool", "int"])
        self.extra = {}
        if extras:
            for i in range(rng.randint(0, 3)):
                name = rng.choice(["mdp_id", "sequence_number", "possible_actions_mask", "log_prob", "foo", "bar", "x_y", "next_thing"]) + rng.choice(["", "", "2"])
                self.extra[name] = rng.choice(DENSE_KINDS)
        # a name "next_<k>" beside "<k>" would collide with the next_ prefix
        self.extra = {k: v for k, v in self.extra.items() if not (k.startswith("next_") and k[5:] in self.extra)}
        self.sparse = {}
        if sparse:
            self.sparse = {"id_list": rng.sample(["a", "b", "c"], rng.randint(1, 3))} if rng.random() < 0.8 else {}
            if rng.random() < 0.8 or not self.sparse:
                self.sparse["id_score_list"] = rng.sample(["p", "q"], rng.randint(1, 2))
        self.tag = rng.randint(1, 50)

    def _val(self, kind):
        shape, dt = kind
        n = int(np.prod(shape)) if shape else 1
        self.tag += 1
        base = self.tag
        if dt == "bool":
            v = np.array([self.rng.random() < 0.5 for _ in range(n)], dtype=bool)
        elif dt == "uint8":
            v = np.array([(base * 7 + i) % 255 + 1 for i in range(n)], dtype=np.uint8)
        elif dt in ("int", "int64"):
            v = np.array([base * 10 + i for i in range(n)], dtype=np.int64)
            u = self.rng.random()
            if u < 0.2:
                v = -v
            elif u < 0.3:
                v = v * 3_000_000_019
        else:
            v = np.array([base + i / 8.0 for i in range(n)], dtype=np.float64 if dt in ("float", "float64") else np.float32)
            if self.rng.random() < 0.3:
                v = -v
            if self.rng.random() < 0.15:
                v = v * self.rng.choice([1024.0, 2.0**20, 2.0**-14, 2.0**40])
        v = v.reshape(shape)
        if shape == ():
            if dt == "float":
                return float(v)
            if dt == "int":
                return int(v)
            if dt == "bool":
                return bool(v)
            return v[()]
        return v

    def make(self, terminal):
        rng = self.rng
        t = {"bool": bool(terminal), "npbool": np.bool_(terminal), "int": int(terminal)}[self.term_kind]
        out = dict(observation=self._val(self.obs_kind), action=self._val(self.act_kind), reward=self._val(self.rew_kind), terminal=t)
        for k, kind in self.extra.items():
            out[k] = self._val(kind)
        for k, keys in self.sparse.items():
            self.tag += 1
            if k == "id_list":
                out[k] = {q: np.array([self.tag * 100 + i for i in range(rng.choice([0, 1, 2, 3, 4, 4, 9, 33]))], dtype=np.int64) for q in keys}
            else:
                out[k] = {}
                for q in keys:
                    m = rng.choice([0, 1, 2, 3, 3, 8, 21])
                    out[k][q] = (np.array([self.tag * 100 + i for i in range(m)], dtype=np.int64), np.array([(self.tag + i / 4.0) * rng.choice([1, 1, -1, 0, 2.0**12, 2.0**-12]) for i in range(m)], dtype=np.float32))
        return out

    def kinds(self):
        d = {"observation": self.obs_kind, "action": self.act_kind, "reward": self.rew_kind}
        d.update(self.extra)
        return d

    def example(self):
        return self.make(False)


def episode_lengths(rng, capacity, horizon, stack, budget):
    """Episode lengths biased to the interesting boundaries."""
    pool = [1, 1, 2, horizon - 1, horizon, horizon + 1, stack, capacity - stack, capacity - 1, capacity, capacity + 1, 2 * capacity + 1, rng.randint(1, 6), rng.randint(1, capacity)]
    out, total = [], 0
    while total < budget:
        n = max(1, rng.choice(pool))
        out.append(n)
        total += n + stack - 1
    return out


def random_config(rng):
    stack = rng.choice([1, 1, 1, 2, 3, 4])
    horizon = rng.choice([1, 1, 2, 3, 5]) if rng.random() < 0.93 else rng.choice([6, 9, 14])
    capacity = stack + horizon + (rng.choice([0, 0, 1, 2, 3, 7, 15]) if rng.random() < 0.95 else rng.choice([40, 70, 120]))
    gamma = rng.choice([0.99, 0.5, 1.0, 0.0, 0.9])
    return stack, horizon, capacity, gamma
