"""P25: experiments keep the model of the best validation epoch."""
import logging
import os
import random
import shutil
import tempfile
from pathlib import Path

import numpy as np
import torch
import torch.nn as nn
import optuna
import dhg
from dhg.experiments import BaseTask, VertexClassificationTask, GraphVertexClassificationTask, HypergraphVertexClassificationTask, UserItemRecommenderTask

from common import *

optuna.logging.set_verbosity(optuna.logging.ERROR)
logging.disable(logging.WARNING)


class Scratch:
    """A scratch folder; deletions by the code under test are only let through inside of it."""

    def __enter__(self):
        self.root = Path(tempfile.mkdtemp(prefix='vexp_')).resolve()
        self.dir = self.root / 'a' / 'b'
        self.dir.mkdir(parents=True)
        self._rm, self._un = shutil.rmtree, Path.unlink
        root, rm, un = self.root, self._rm, self._un

        def inside(p):
            return root in [Path(p).resolve()] + list(Path(p).resolve().parents)

        def rmtree(path, *a, **k):
            if not (inside(path) and Path(path).resolve() not in (root, root / 'a', root / 'a' / 'b')):
                raise Fail('tried to delete the folder %s' % path)
            return rm(path, *a, **k)

        def unlink(self_, *a, **k):
            if not inside(self_.parent):
                raise Fail('tried to delete the file %s' % self_)
            return un(self_, *a, **k)
        shutil.rmtree, Path.unlink = rmtree, unlink
        return self.dir

    def __exit__(self, *a):
        shutil.rmtree, Path.unlink = self._rm, self._un
        self._rm(self.root, ignore_errors=True)
        lg = logging.getLogger('optuna')
        for h in list(lg.handlers):
            if isinstance(h, logging.FileHandler):
                h.close()
                lg.removeHandler(h)
        lg.setLevel(logging.ERROR)


class Counter(nn.Module):
    def __init__(self):
        super().__init__()
        self.w = nn.Parameter(torch.zeros(1))
        self.lin = nn.Linear(1, 1)


class Script(BaseTask):
    """Scores are scripted; training adds one to the only parameter."""

    def to(self, device):
        return self

    def train(self, data, model, optimizer, criterion):
        self.log.append('t')
        with torch.no_grad():
            model.w += 1

    def validate(self, data, model):
        self.log.append('v')
        return self.scores[self.cur][int(model.w.item()) - 1]

    def test(self, data=None, model=None):
        m = self.best_model
        self.tested = (m.w.item(), self.best_structure)
        return {'res': 1.0}


@case
def scripted(p):
    with Scratch() as d:
        scores, direction, ne = p['scores'], p['direction'], len(p['scores'][0])
        structs = [dhg.Graph(3, [[0, 1]], [float(i + 1)]) for i in range(len(scores))]
        task = None

        files = {}

        def snap():
            # what is stored when a trial starts, and at the end
            for f in Path(task.cache_root).glob('*_model.pth'):
                files[f.name] = torch.load(f)['w'].item()

        def mb(trial):
            snap()
            return Counter()

        def tb(trial, model):
            task.cur = trial.number
            return {'optimizer': None, 'criterion': None}

        def sb(trial):
            return structs[trial.number].clone()
        data = {'structure': structs[0]} if not p.get('nostruct') else {}
        task = Script(str(d), data, mb, tb, None, torch.device('cpu'), structure_builder=sb if p['sb'] else None, study_name='s')
        task.logger.setLevel(logging.ERROR)
        task.log, task.scores = [], scores
        cre = optuna.create_study
        pr = p.get('prune')

        class Pruner(optuna.pruners.BasePruner):
            def prune(self, study, trial):
                return pr is not None and trial.number == pr[0] and trial.last_step == pr[1]
        reports = {}
        rep = optuna.Trial.report

        def report(self, value, step):
            reports.setdefault(self.number, []).append((step, value))
            return rep(self, value, step)

        def create(*a, **k):
            s = cre(*a, **k)
            s.pruner = Pruner()
            return s
        optuna.create_study, optuna.Trial.report = create, report
        try:
            with torch.no_grad():
                task.run(ne, len(scores), direction)
        finally:
            optuna.create_study, optuna.Trial.report = cre, rep
        snap()
        pick = max if direction == 'maximize' else min
        done = {}
        for i, sc in enumerate(scores):
            if pr is not None and pr[0] == i and pr[1] < ne:
                need('%d_model.pth' % i not in files, 'a pruned trial stored a model')
                need(reports[i] == list(enumerate(sc))[:pr[1] + 1], 'reports of the pruned trial %s', reports[i])
                continue
            best = pick(sc)
            done[i] = best
            need(reports[i] == list(enumerate(sc)), 'reports %s want %s', reports.get(i), list(enumerate(sc)))
            if i == len(scores) - 1 and i != task.study.best_trial.number:
                continue
            need(files.get('%d_model.pth' % i) == sc.index(best) + 1, 'trial %d: scores %s (%s): stored the model of epoch %s', i, sc, direction, files.get('%d_model.pth' % i))
        n_ep = sum(len(v) for v in reports.values())
        need(''.join(task.log) == 'tv' * n_ep, 'training and validation do not alternate: %s', ''.join(task.log))
        vals = [t.value for t in task.study.trials if t.state == optuna.trial.TrialState.COMPLETE]
        need(vals == list(done.values()), 'trial values %s want %s', vals, list(done.values()))
        bt = pick(done, key=lambda i: done[i])
        bt = [i for i in done if done[i] == done[bt]]
        i = task.study.best_trial.number
        need(i in bt, 'best trial %s not in %s', i, bt)
        need(near(task.best_trial.value, done[i]), 'best value')
        need(task.tested[0] == scores[i].index(done[i]) + 1, 'the tested model is that of epoch %s', task.tested[0])
        if not p.get('nostruct'):
            need(task.tested[1].e == structs[i if p['sb'] else 0].e, 'the tested structure is not that of the best trial')
        names = {f.name for f in Path(task.cache_root).glob('*')}
        want = {'%d_model.pth' % i} | (set() if p.get('nostruct') else {'%d_structure.dhg' % i})
        need(names == want, 'files left: %s want %s', names, want)


class Ev:
    def __init__(self):
        self.calls = []

    def validate(self, t, o):
        self.calls.append(('v', t.tolist(), o.tolist()))
        return 0.5

    def test(self, t, o):
        self.calls.append(('t', t.tolist(), o.tolist()))
        return {'r': 0.5}

    def validate_add_batch(self, t, o):
        self.calls.append(('va', t.tolist(), o.tolist()))

    def test_add_batch(self, t, o):
        self.calls.append(('ta', t.tolist(), o.tolist()))

    def validate_epoch_res(self):
        return 0.25

    def test_epoch_res(self):
        return {'r': 0.75}


class Probe(nn.Module):
    def __init__(self):
        super().__init__()
        self.w = nn.Parameter(torch.ones(1))
        self.modes = []

    def forward(self, X, g):
        self.modes.append((self.training, torch.is_grad_enabled(), id(g)))
        return X * self.w


@case
def classification_task(p):
    """Training, validation and testing use their own mask, mode and gradients."""
    with Scratch() as d:
        n = p['n']
        r = random.Random(p['seed'])
        pt = [r.randrange(3) for _ in range(n)]
        if not all(k in pt for k in range(3)):
            raise Reject()
        X = torch.tensor([[r.choice([1.0, 2.0, 3.0])] for _ in range(n)])
        Y = torch.tensor([[r.choice([0.0, 1.0])] for _ in range(n)])
        g = dhg.Graph(n, [[0, 1]])
        masks = [torch.tensor([x == k for x in pt]) for k in range(3)]
        data = {'features': X, 'structure': g, 'labels': Y, 'train_mask': masks[0], 'val_mask': masks[1], 'test_mask': masks[2]}
        ev = Ev()
        cls = {'v': VertexClassificationTask, 'g': GraphVertexClassificationTask, 'h': HypergraphVertexClassificationTask}[p['cls']]
        task = cls(str(d), data, None, None, ev, torch.device('cpu'), study_name='s')
        task.logger.setLevel(logging.ERROR)
        m = Probe()
        opt = torch.optim.SGD(m.parameters(), lr=0.1)
        seen = []

        def crit(o, t):
            seen.append((o.tolist(), t.tolist()))
            return ((o - t) ** 2).sum()
        m.w.grad = torch.full((1,), 100.0)
        m.eval()
        task.train(task.data, m, opt, crit)
        need(seen == [(X[masks[0]].tolist(), Y[masks[0]].tolist())], 'training does not use exactly the training vertices: %s', seen)
        need(m.modes[-1][0] and m.modes[-1][1], 'training is not in training mode')
        gr = float((2 * (X[masks[0]] - Y[masks[0]]) * X[masks[0]]).sum())
        need(near(m.w.item(), 1 - 0.1 * gr), 'training step: weight %s want %s', m.w.item(), 1 - 0.1 * gr)
        w = m.w.item()
        need(task.validate(task.data, m) == 0.5, 'validation score')
        need(not m.modes[-1][0] and not m.modes[-1][1], 'validation is not in evaluation mode')
        need(ev.calls[-1][0] == 'v' and same_array(ev.calls[-1][1], Y[masks[1]]) and same_array(ev.calls[-1][2], X[masks[1]] * w), 'validation does not use exactly the validation vertices')
        m.train()
        need(task.test(data, m) == {'r': 0.5}, 'test result')
        need(not m.modes[-1][0] and not m.modes[-1][1], 'testing is not in evaluation mode')
        need(ev.calls[-1][0] == 't' and same_array(ev.calls[-1][1], Y[masks[2]]) and same_array(ev.calls[-1][2], X[masks[2]] * w), 'testing does not use exactly the test vertices')
        g2 = dhg.Graph(n, [[0, 1]])
        task.best_model, task.best_structure = m, g2
        task.test()
        need(m.modes[-1][2] == id(g2), 'the final test does not use the best structure')
        need(ev.calls[-1][0] == 't' and same_array(ev.calls[-1][1], Y[masks[2]]) and same_array(ev.calls[-1][2], X[masks[2]] * w), 'the final test does not use exactly the test vertices')
        need(m.w.item() == w, 'validation or testing changed the model')


class RecProbe(nn.Module):
    def __init__(self, nu, ni):
        super().__init__()
        self.u = nn.Parameter(torch.tensor([[float(i + 1), 0.5] for i in range(nu)]))
        self.i = nn.Parameter(torch.tensor([[0.25 * i, 1.0] for i in range(ni)]))
        self.modes = []

    def forward(self, g=None):
        self.modes.append((self.training, torch.is_grad_enabled(), g))
        return self.u, self.i


@case
def recommender_task(p):
    with Scratch() as d:
        r = random.Random(p['seed'])
        nu, ni = p['nu'], p['ni']
        g = dhg.BiGraph(nu, ni, [[0, 0]]) if p['struct'] else None
        ev = Ev()
        perm = r.sample(range(nu), nu)
        tl, k = [], 0
        while k < nu:
            us = perm[k:k + 2]
            k += 2
            tl.append((torch.tensor(us), torch.tensor([[r.choice([0.0, -1e9]) for _ in range(ni)] for _ in us]), torch.tensor([[r.choice([0.0, 1.0]) for _ in range(ni)] for _ in us])))
        tr = [(torch.tensor([r.randrange(nu)]), torch.tensor([r.randrange(ni)]), torch.tensor([r.randrange(ni)])) for _ in range(2)]
        data = {'train_loader': tr, 'test_loader': tl}
        if g is not None:
            data['structure'] = g
        task = UserItemRecommenderTask(str(d), data, None, None, ev, torch.device('cpu'), study_name='s')
        task.logger.setLevel(logging.ERROR)
        m = RecProbe(nu, ni)
        opt = torch.optim.SGD(m.parameters(), lr=0.5)
        seen = []

        def crit(eu, ei, u, i, j, model=None):
            seen.append((u.tolist(), i.tolist(), j.tolist()))
            return (eu[u] * (ei[i] - ei[j])).sum()
        u0, i0 = m.u.detach().clone().numpy(), m.i.detach().clone().numpy()
        m.eval()
        task.train(task.data, m, opt, crit)
        need(seen == [tuple(x.tolist() for x in b) for b in tr], 'training batches')
        need(all(x[0] and x[1] for x in m.modes) and len(m.modes) == len(tr), 'training mode')
        for b in tr:
            a, x, y = [int(q[0]) for q in b]
            gu, gi = np.zeros_like(u0), np.zeros_like(i0)
            gu[a] += i0[x] - i0[y]
            gi[x] += u0[a]
            gi[y] -= u0[a]
            u0, i0 = u0 - 0.5 * gu, i0 - 0.5 * gi
        need_array(m.u, u0, 'training step')
        need_array(m.i, i0, 'training step')
        for what in ('validate', 'test', 'final'):
            m.modes.clear()
            ev.calls.clear()
            m.train()
            if what == 'validate':
                need(task.validate(task.data, m) == 0.25, 'score')
            elif what == 'test':
                need(task.test(data, m) == {'r': 0.75}, 'score')
            else:
                task.best_model, task.best_structure = m, g
                need(task.test() == {'r': 0.75}, 'score')
            need(all(not x[0] and not x[1] for x in m.modes), what + ' mode')
            need(all((x[2] is None) == (g is None) for x in m.modes), what + ' structure')
            need([c[0] for c in ev.calls] == ['va' if what == 'validate' else 'ta'] * len(tl), what + ' batches')
            for c, (us, mk, tru) in zip(ev.calls, tl):
                need_array(c[1], tru, what + ' truth')
                need_array(c[2], u0[us.numpy()] @ i0.T + mk.numpy(), what + ' prediction')


@generator('P25')
def gen_p25(r, tier):
    S = [0.0, 0.25, 0.5, 0.75, 1.0]
    yield 'scripted', {'scores': [[0.5, 0.75, 0.25, 0.75]], 'direction': 'maximize', 'sb': False}
    yield 'scripted', {'scores': [[0.5, 0.25, 0.75, 0.25]], 'direction': 'minimize', 'sb': False}
    yield 'scripted', {'scores': [[0.5, 0.25], [0.75, 0.5], [0.75, 0.0]], 'direction': 'maximize', 'sb': True}
    yield 'scripted', {'scores': [[0.5, 0.75, 0.25]], 'direction': 'maximize', 'sb': False, 'nostruct': True}
    while True:
        ne, nt = r.randint(1, 5), r.randint(1, 4)
        sc, off = r.choice([1, 1, 1, 8192, 2.0 ** -20]), r.choice([0, 0, 0, -2.0, 4096.0, -(2.0 ** 17)])
        p = {'scores': [[r.choice(S) * sc + off for _ in range(ne)] for _ in range(nt)], 'direction': r.choice(['maximize', 'minimize']), 'sb': r.random() < 0.6}
        if nt > 1 and r.random() < 0.5:
            p['prune'] = [r.randrange(nt), r.randrange(ne)]
        yield 'scripted', p
        yield 'classification_task', {'n': r.randint(3, 7), 'seed': r.randrange(10000), 'cls': r.choice('vgh')}
        yield 'recommender_task', {'nu': r.randint(1, 5), 'ni': r.randint(1, 4), 'seed': r.randrange(10000), 'struct': r.random() < 0.6}
