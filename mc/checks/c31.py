"""Packed network parameters: every architecture, number of models, choice and order of parameter names."""
import copy
import itertools

import numpy as np
import torch
from torch import nn

import cbx.dynamics as D
from cbx.utils import torch_utils as T

from ..core import Violation
from ..env import need, need_close, need_equal

ID, LEVEL = 'C31', 'exploration'
RULE = ('every architecture x number of models x template x every ordered choice of parameter names (all permutations of every subset up to a size) '
        'x input batch; outputs, losses and accuracies through the packed array compared with the models themselves')
BOUNDS = 'up to 4 models, 1-8 parameter tensors of 0-4 axes, all ordered choices for up to 4 names (prefix, reversed, rotated and single ones beyond); also 7 models'
ASSUMPTIONS = ['networks without buffers of their own (buffers come from the template)', 'CPU tensors']


class Scale(nn.Module):
    def __init__(self):
        super().__init__()
        self.s = nn.Parameter(torch.randn(()))
        self.z = nn.Parameter(torch.randn(1))
        self.inner = nn.Linear(2, 3)

    def forward(self, x):
        return self.inner(x) * self.s + self.z


class Cubes(nn.Module):
    """Parameters of equal sizes and of three axes."""

    def __init__(self):
        super().__init__()
        self.a = nn.Parameter(torch.randn(3, 2))
        self.b = nn.Parameter(torch.randn(2, 3))
        self.c = nn.Parameter(torch.randn(1, 2, 3))

    def forward(self, x):
        return x @ self.b + x @ self.a.T + x @ self.c[0] * 2


def nets():
    return dict(
        linear=(lambda: nn.Linear(2, 3), (2,)),
        nobias=(lambda: nn.Linear(2, 3, bias=False), (2,)),
        narrow=(lambda: nn.Sequential(nn.Linear(2, 1), nn.Tanh(), nn.Linear(1, 3)), (2,)),
        square=(lambda: nn.Sequential(nn.Linear(2, 2), nn.Tanh(), nn.Linear(2, 2)), (2,)),
        mlp=(lambda: nn.Sequential(nn.Linear(2, 4), nn.ReLU(), nn.Linear(4, 3, bias=False), nn.LayerNorm(3), nn.Linear(3, 3)), (2,)),
        conv=(lambda: nn.Sequential(nn.Conv2d(1, 2, 2), nn.Tanh(), nn.Flatten(), nn.Linear(8, 3)), (1, 3, 3)),
        scalar=(Scale, (2,)),
        cubes=(Cubes, (2,)),
        nested=(lambda: nn.ModuleDict(dict(net=nn.Sequential(nn.Linear(2, 3), nn.Sequential(nn.ELU(), nn.Linear(3, 2))))).net, (2,)),
    )


def scenarios(tier):
    th = tier == 'thorough'
    return [dict(arch=a, n=n, dtype=dt, size=4 if th else 3) for n in (1, 2, 3) + ((4,) if th else ()) for a in nets()
            for dt in ('float32', 'float64')] + [dict(arch=a, n=7, dtype='float64', size=2) for a in nets()]


def choices(names, size):
    if len(names) <= size:
        return [p for k in range(1, len(names) + 1) for p in itertools.permutations(names, k)]
    n = len(names)
    out = [tuple(names), tuple(names[::-1]), tuple(names[1:]), tuple(names[:-1]), tuple(names[1:] + names[:1]), tuple(names[::2] + names[1::2])]
    out += [(a,) for a in names] + list(itertools.permutations(names, 2))
    return out + (list(itertools.permutations(names)) if n <= 4 else [])


def run(sc, ch, ctx):
    make, insh = nets()[sc['arch']]
    dt = getattr(torch, sc['dtype'])
    torch.manual_seed(7)
    models = [make().to(dt) for _ in range(sc['n'])]
    other = make().to(dt)
    names = [k for k, _ in models[0].named_parameters()]
    pick = ch.pick([None] + choices(names, sc['size']), 'names')
    template = other if ch.choose(2, 'template') else models[-1]
    tol = dict(rtol=1e-5, atol=1e-6) if dt == torch.float32 else dict(rtol=1e-11, atol=1e-12)
    params = [{k: v.detach().clone() for k, v in m.named_parameters()} for m in models + [other]]
    order = list(names) if pick is None else list(pick)
    pprop = T.get_param_properties(models) if pick is None else T.get_param_properties(models, pnames=list(pick))
    what = '%s, %d models, names %s: ' % (sc['arch'], sc['n'], order)
    need(sorted(pprop) == sorted(order), what + 'properties of %s' % list(pprop))
    w = T.flatten_parameters(models, list(pprop) if pick is None else order)
    D_ = sum(params[0][k].numel() for k in order)
    need(tuple(w.shape) == (sc['n'], D_), what + 'particles of shape %s, expected %s' % (tuple(w.shape), (sc['n'], D_)))
    need(not w.requires_grad, what + 'particles carry gradients')
    cover = np.zeros(D_, int)
    for k in order:
        sh, a, b = pprop[k][0], pprop[k][-2], pprop[k][-1]
        need(tuple(sh) == tuple(params[0][k].shape), what + 'shape %s of %s' % (tuple(sh), k))
        cover[a:b] += 1
        for i in range(sc['n']):
            need_equal(what + 'slice of %s in particle %d' % (k, i), w[i, a:b], params[i][k].reshape(-1))
    need(np.all(cover == 1), what + 'slices cover the particle %s times' % cover)
    keep = w.clone()
    # the models the particles stand for
    stand = []
    for i in range(sc['n']):
        m = copy.deepcopy(template)
        sd = dict(m.named_parameters())
        with torch.no_grad():
            for k in order:
                sd[k].copy_(params[i][k])
        stand.append(m)
    batches = []
    g = torch.Generator().manual_seed(3)
    for b in (4, 1, 3):
        x = torch.randn((b,) + insh, generator=g, dtype=torch.float64).to(dt)
        batches.append((x, None))
    with torch.no_grad():
        for x, _ in batches[:2]:
            want = torch.stack([m(x) for m in stand])
            need_close(what + 'outputs of all models', T.eval_models(x, template, w, pprop), want, **tol)
            for i in range(sc['n']):
                need_close(what + 'output of model %d' % i, T.eval_model(x, template, w[i], pprop), want[i], **tol)
    k = want.shape[-1]
    for loss, tgt in ((nn.CrossEntropyLoss(), lambda b: torch.arange(b) % k), (nn.MSELoss(), lambda b: torch.linspace(-1, 1, b * k).reshape(b, k).to(dt)),
                      (nn.MSELoss(reduction='sum'), lambda b: torch.zeros(b, k, dtype=dt))):
        for x, _ in batches[:2]:
            y = tgt(len(x))
            with torch.no_grad():
                want = torch.stack([loss(m(x), y) for m in stand])
            got = T.eval_losses(x, y, loss, template, w, pprop)
            need_close(what + 'losses', got, want, **tol)
            need(not got.requires_grad, what + 'losses carry gradients')
            for i in range(sc['n']):
                need_close(what + 'loss of model %d' % i, T.eval_loss(x, y, loss, template, w[i], pprop), want[i], **tol)
    # accuracy over batches of different sizes
    nb = ch.choose(3, 'batches') + 1
    loader = []
    for j, (x, _) in enumerate(batches[:nb]):
        with torch.no_grad():
            y = stand[0](x).argmax(-1)
        y[j % len(y):] = (torch.arange(len(y)) % k)[j % len(y):]
        loader.append((x, y))
    for i in range(sc['n']):
        with torch.no_grad():
            hits = sum(int((stand[i](x).argmax(-1) == y).sum()) for x, y in loader)
        total = sum(len(y) for _, y in loader)
        need_close(what + 'accuracy of model %d on %d batches' % (i, nb), T.eval_acc(template, w[i], pprop, loader).double(), np.array(hits / total), rtol=1e-6)
    # nothing was changed
    need_equal(what + 'particles after the evaluations', w, keep)
    for i, m in enumerate(models + [other]):
        for k_, v in m.named_parameters():
            need_equal(what + 'parameter %s of model %d after the evaluations' % (k_, i), v.detach(), params[i][k_])
    # other particles give the corresponding networks
    w2 = w * 1.5 + .25
    m = copy.deepcopy(template)
    sd = dict(m.named_parameters())
    with torch.no_grad():
        for q in order:
            a, b = pprop[q][-2], pprop[q][-1]
            sd[q].copy_(w2[-1, a:b].reshape(params[0][q].shape))
        need_close(what + 'output of a moved particle', T.eval_models(batches[0][0], template, w2, pprop)[-1], m(batches[0][0]), **tol)
    w2[0, 0] += 1.
    for i, mm in enumerate(models):
        for k_, v in mm.named_parameters():
            need_equal(what + 'model %d after moving particles' % i, v.detach(), params[i][k_])
    # as the objective of a dynamic
    if template is other:
        x, y = batches[0][0], torch.arange(4) % k
        loss = nn.CrossEntropyLoss()

        def f(p):
            return torch.stack([T.eval_losses(x, y, loss, template, q, pprop) for q in p])
        dyn = T.to_torch_dynamic(D.CBO)(f, f_dim='3D', x=w[None].clone(), verbosity=0, noise='anisotropic', check_f_dims=dt == torch.float32)
        with torch.no_grad():
            want = np.array([[float(loss(s(x), y)) for s in stand]])
        dyn.step()
        need_close(what + 'energies of the particles', dyn.energy, want, rtol=1e-5, atol=1e-6)
    ctx.case((sc['arch'], sc['n'], sc['dtype'], tuple(order), nb), len(order) > 1)
    if len(ctx.samples) < 3:
        ctx.sample(what)
