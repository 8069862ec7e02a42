"""P25: experiments.  The model is ghost state: `version` counts the training epochs it went through; the validation score is an
arbitrary function of the version.  Trials, studies and files are ghost state (see ghostfs)."""
from contracts.ghostfs import *
from contracts.structs import list_eq
from pyvc.spec import *

B = 'dhg.experiments.base:BaseTask.'
Sc = lambda v: app('score', lift(v), sort='R')


def host(name, f):
    return HostFn(name, f)


def none(ex, a, k):
    return None


class ModelH(HostObj):
    """A model whose parameters are those reached after `version` training epochs (or loaded parameters)."""
    always_true = True
    kind = 'model'

    def __init__(self, version, tag='model'):
        self.birth = birth()
        self.version, self.tag = version, tag
        self.mode, self.device = None, None

    def getattr(self, ex, name):
        if name == 'cpu':
            return host(name, lambda ex, a, k: self)
        if name == 'to':
            def to(ex, a, k):
                ex.setattr(self, 'device', a[0])
                return self
            return host(name, to)
        if name == 'state_dict':
            return host(name, lambda ex, a, k: StateH(self))
        if name == 'load_state_dict':
            def load(ex, a, k):
                v = a[0]
                ex.setattr(self, 'version', v.params() if isinstance(v, StateH) else v)
                return None
            return host(name, load)
        if name in ('train', 'eval'):
            def mode(ex, a, k):
                on = name == 'train' and (a[0] if a else k.get('mode', True))
                ex.setattr(self, 'mode', 'train' if on else 'eval')
                return self
            return host(name, mode)
        raise Unsupported('model.%s' % name)

    def deepcopy(self, ex):
        m = ModelH(self.version, self.tag)
        m.mode, m.device = self.mode, self.device
        return m


class StateH(HostObj):
    """The state dictionary of a model: a view of its parameters; a copy is a snapshot."""
    always_true = True

    def __init__(self, model, snap=None):
        self.birth = birth()
        self.model, self.snap = model, snap

    def params(self):
        return self.snap if self.snap is not None else self.model.version

    def getattr(self, ex, name):
        raise Unsupported('state_dict.%s' % name)

    def deepcopy(self, ex):
        return StateH(None, self.params())


class StructH(HostObj):
    always_true = True

    def __init__(self, name, device=None):
        self.birth = birth()
        self.name, self.device = name, device

    def getattr(self, ex, name):
        if name == 'to':
            def to(ex, a, k):
                ex.setattr(self, 'device', a[0])
                return self
            return host(name, to)
        if name == 'save':
            return host(name, lambda ex, a, k: fsof(ex).put(ex, tokey(a[0]).key, ('structure', self.name)))
        if name == 'clone':
            return host(name, lambda ex, a, k: StructH(self.name, self.device))
        raise Unsupported('structure.%s' % name)

    def deepcopy(self, ex):
        return StructH(self.name, self.device)


@external('torch.save')
def ext_tsave(ex, a, k):
    x, f = a[0], a[1]
    if isinstance(f, FileH):
        if 'w' not in f.mode or 'b' not in f.mode:
            raise Unsupported('torch.save into a file not open for writing')
        key = f.key
    else:
        key = tokey(f).key
    if isinstance(x, StateH):
        x = x.params()
    if isinstance(x, ModelH):
        raise Unsupported('a whole model is stored')
    fsof(ex).put(ex, key, ('torch', x))


@external('torch.load')
def ext_tload(ex, a, k):
    key = a[0].key if isinstance(a[0], FileH) else tokey(a[0]).key
    fs = fsof(ex)
    if fs.files.get(key) is None:
        raise PyRaise('FileNotFoundError', key, ex.where)
    return fs.files[key][1]


class TrialH(HostObj):
    always_true = True

    def __init__(self, number, reports, prune=True):
        self.birth = birth()
        self.number, self.reports, self.prune = number, reports, prune

    def getattr(self, ex, name):
        if name == 'number':
            return self.number
        if name == 'report':
            def report(ex, a, k):
                v = a[0] if a else k['value']
                s = a[1] if len(a) > 1 else k['step']
                ex.call(ex.getattr(self.reports, 'append'), [(v, s)], {})
            return host(name, report)
        if name == 'should_prune':
            def sp(ex, a, k):
                if not self.prune:
                    return False
                return app('prune', ex.loop_vars[-1] if ex.loop_vars else app('outside', sort='I'), sort='B')
            return host(name, sp)
        if name == 'value':
            return rsym(ex, 'bestvalue')
        if name == 'params':
            return DictV({})
        raise Unsupported('trial.%s' % name)

    def deepcopy(self, ex):
        raise Unsupported('copy of a trial')


class Best(LoopSpec):
    """Contract of the epoch loop: before epoch v > 0 every variable that remembers something about the best epoch remembers it
    of epoch arg(v), the first epoch of 0..v-1 with the best score; before epoch 0 it has its initial value."""

    def __init__(self, maximize, model):
        self.better = (lambda a, b: lt(b, a)) if maximize else (lambda a, b: lt(a, b))
        self.notworse = (lambda a, b: le(b, a)) if maximize else (lambda a, b: le(a, b))
        self.model, self.used = model, False

    def arg(self, v):
        return app('arg', lift(v), sort='I')

    def inv(self, v, a):
        e, f = fresh('e'), fresh('f')
        return [le(ZERO, a), lt(a, v), forall(((e, v),), self.notworse(Sc(add(a, ONE)), Sc(add(e, ONE)))),
                forall(((f, a),), self.better(Sc(add(a, ONE)), Sc(add(f, ONE))))]

    def of(self, loc, a):
        """What a location remembers of epoch a, judged by what the first epoch stores there."""
        n = loc.first
        ver = add(a, ONE)
        if isinstance(n, ModelH):
            return ModelH(ver)
        if isinstance(n, StateH):
            return StateH(None, ver) if n.snap is not None else None
        if isinstance(n, Term) and n.sort == 'R':
            return Sc(ver)
        if isinstance(n, Term) and n.sort == 'I' or isinstance(n, int) and not isinstance(n, bool):
            return a
        return None

    def pick(self, locs):
        out = []
        for l in locs.values():
            if isinstance(l.o, Env) and (l.old is None or isinstance(l.old, lib.InfV)) and self.of(l, ZERO) is not None:
                out.append(l)
        return out

    def match(self, ex, loop, locs, frame):
        return bool(self.pick(locs))

    def locs(self, locs):
        self.ls = self.pick(locs)
        self.vs = [l for l in locs.values() if l.o is self.model and l.k == 'version']
        return self.ls + self.vs

    def init(self, ex, v, hi):
        self.used = True
        self.old = {l.id: l.old for l in self.ls}

    def enter(self, ex, v):
        for l in self.vs:
            l.put(ex, v)
        self.first = ex.decide(eq(v, ZERO))
        if self.first:
            for l in self.ls:
                l.put(ex, self.old[l.id])
            return
        a = self.arg(v)
        for c in self.inv(v, a):
            ex.assume(c)
        for l in self.ls:
            l.put(ex, self.of(l, a))

    def leave(self, ex, v):
        for l in self.vs:
            ex.check('every epoch trains the model once, before it is validated', eq(lift(l.get()), add(v, ONE)))
        a = ZERO if self.first else ite(self.better(Sc(add(v, ONE)), Sc(add(self.arg(v), ONE))), v, self.arg(v))
        for c in self.inv(add(v, ONE), a):
            ex.check('lemma: the first best epoch so far', c)
        for l in self.ls:
            n, w = l.get(), self.of(l, a)
            label = 'what is remembered belongs to the first best epoch so far'
            if isinstance(n, ModelH):
                if n is self.model:
                    ex.fail(label, 'the model itself, which is trained further, is kept')
                else:
                    ex.check(label, eq(lift(n.version), w.version) if isinstance(w, ModelH) else FALSE)
            elif isinstance(n, StateH):
                if n.snap is None and n.model is self.model:
                    ex.fail(label, 'a live view of the parameters is kept')
                else:
                    ex.check(label, eq(lift(n.params()), w.params()))
            elif n is None or isinstance(n, lib.InfV):
                ex.fail(label, 'nothing is remembered')
            else:
                ex.check(label, eq_any(lift(n), w))

    def finish(self, ex, n):
        n = lift(n)
        for l in self.vs:
            l.put(ex, n)
        if not ex.decide(lt(ZERO, n)):
            for l in self.ls:
                l.put(ex, self.old[l.id])
            return
        a = self.arg(n)
        for c in self.inv(n, a):
            ex.assume(c)
        for l in self.ls:
            l.put(ex, self.of(l, a))


def mk_task(ex, cls='dhg.experiments.base:BaseTask', **attrs):
    base = dict(data=DictV({}), device=Opaque('device'), structure_builder=None, evaluator=None, study=None, cache_root=PathH('cache'), study_root=PathH('study'), logger=Logger())
    return obj(ex, cls, **dict(base, **attrs))


class Logger(HostObj):
    always_true = True

    def __init__(self):
        self.birth = birth()

    def getattr(self, ex, name):
        return host('log.' + name, none)


def experiment(maximize, sb, has_struct, sched):
    def run(ex):
        n = isym(ex, 'epochs', 1)
        model = ModelH(ZERO)
        dev = Opaque('device')
        reports = ListV([])
        trial = TrialH(7, reports)
        data = DictV({'structure': StructH('given')} if has_struct else {})
        opt, crit = Opaque('optimizer'), Opaque('criterion')
        cfg = {'optimizer': opt, 'criterion': crit}
        sch = None
        if sched:
            sch = Logger()
            cfg['scheduler'] = sch
        task = mk_task(ex, data=data, device=dev, max_epoch=n, direction='maximize' if maximize else 'minimize')

        def build(ex, a, k):
            ex.check('the model is built for this trial', len(a) == 1 and a[0] is trial)
            return model

        def tbuild(ex, a, k):
            ex.check('the training configuration is built for this trial and model', a[0] is trial and a[1] is model)
            return DictV(dict(cfg))

        def sbuild(ex, a, k):
            ex.check('the structure is built for this trial', a[0] is trial)
            return StructH('built')

        def train(ex, a, k):
            ex.check('training gets the data, the model, the optimizer and the criterion', len(a) == 4 and a[0] is data and a[1] is model and a[2] is opt and a[3] is crit)
            ex.check('on the device', model.device is dev)
            s = data.d.get('structure') if data.d is not None else None
            ex.check('with the structure of the trial', s.name == ('built' if sb else 'given') if isinstance(s, StructH) else not sb and not has_struct)
            ex.setattr(model, 'version', add(lift(model.version), ONE))

        def validate(ex, a, k):
            ex.check('validation gets the data and the model', len(a) == 2 and a[0] is data and a[1] is model)
            return Sc(model.version)
        for nm, f in (('model_builder', build), ('train_builder', tbuild), ('train', train), ('validate', validate)):
            task.attrs[nm] = host(nm, f)
        if sb:
            task.attrs['structure_builder'] = host('structure_builder', sbuild)
        spec = Best(maximize, model)
        ex.loop_specs.append(spec)
        k, r = raises(ex, lambda: callq(ex, B + 'experiment', task, trial))
        fs = fsof(ex)
        u = fresh('u')
        pruned = exists(((u, n),), app('prune', u, sort='B'))
        if k is not None:
            ex.check('the trial fails only when it is pruned', and_(k.endswith('TrialPruned'), pruned))
            ex.check('a pruned trial stores nothing', not fs.writes)
            return
        ex.check('a pruned trial does not end normally', not_(pruned))
        if not spec.used:
            ex.undecided('best epoch', 'the epoch loop has another form')
            return
        a = spec.arg(n)
        better, notworse = spec.better, spec.notworse
        best = Sc(add(a, ONE))
        e, f = fresh('e'), fresh('f')
        if not isinstance(r, (Term, int, float, Fraction)):
            ex.fail('the best score is reported', 'returned %s' % type(r).__name__)
            return
        ex.check('the reported score is that of an epoch', and_(le(ZERO, a), lt(a, n), eq(lift(r), best)))
        ex.check('no epoch is better than the reported score', forall(((e, n),), notworse(lift(r), Sc(add(e, ONE)))))
        want = {'cache/7_model.pth'} | ({'cache/7_structure.dhg'} if sb or has_struct else set())
        ex.check('exactly the files of this trial are stored', set(fs.writes) == want)
        st = fs.files.get('cache/7_model.pth')
        if isinstance(st, tuple) and st[0] == 'torch' and isinstance(st[1], (Term, int)):
            v = add(lift(st[1]), const(-1))
            ex.check('the stored parameters reach the reported score', and_(le(ZERO, v), lt(v, n), eq(Sc(lift(st[1])), lift(r))))
            ex.check('they are those of the first such epoch', forall(((f, v),), better(lift(r), Sc(add(f, ONE)))))
        else:
            ex.fail('the parameters are stored', repr(st))
        if sb or has_struct:
            ex.check('the structure of the trial is stored', fs.files.get('cache/7_structure.dhg') == ('structure', 'built' if sb else 'given'))
        ex.check('every epoch was trained', eq(lift(model.version), n))
        list_eq(ex, 'every epoch reports its own score', ListV(lib.nmap(reports.nodes, lambda v: v[0])), n, lambda q: Sc(add(lift(q), ONE)))
        list_eq(ex, 'under its own number', ListV(lib.nmap(reports.nodes, lambda v: v[1])), n, lambda q: lift(q))
    return run


for _mx in (True, False):
    for _sb, _hs, _sched in ((False, False, False), (False, True, True), (True, False, False), (True, True, False), (False, True, False)):
        contract('experiment, %s%s%s%s' % ('maximize' if _mx else 'minimize', ', structure builder' if _sb else '', ', structure given' if _hs else '', ', scheduler' if _sched else ''),
                 ['P25'], [B + 'experiment'])(experiment(_mx, _sb, _hs, _sched))


# ------------------------------------------------------------------ the study
NAMES = ['3_model.pth', '3_structure.dhg', '30_model.pth', '30_structure.dhg', '1_model.pth', '13_model.pth', '13_structure.dhg', '0_model.pth']


class DirH(PathH):
    """A folder with known files."""

    def __init__(self, key, names):
        PathH.__init__(self, key)
        self.names = names

    def getattr(self, ex, name):
        if name == 'glob':
            def glob(ex, a, k):
                if a[0] not in ('*', '*.*'):
                    raise Unsupported('glob %s' % a[0])
                return ListV(tuple(Item(NamedH(self.key + '/' + n)) for n in self.names if fsof(ex).files.get(self.key + '/' + n) is not None))
            return host(name, glob)
        if name == 'iterdir':
            return host(name, lambda ex, a, k: self.getattr(ex, 'glob').fn(ex, ['*'], {}))
        return PathH.getattr(self, ex, name)


class NamedH(PathH):
    def getattr(self, ex, name):
        if name == 'name':
            return self.key.split('/')[-1]
        if name == 'stem':
            return self.key.split('/')[-1].rsplit('.', 1)[0]
        if name == 'suffix':
            return '.' + self.key.split('/')[-1].rsplit('.', 1)[1]
        return PathH.getattr(self, ex, name)


class StudyH(HostObj):
    always_true = True

    def __init__(self, log=None):
        self.birth = birth()
        self.log = log

    def getattr(self, ex, name):
        if name == 'best_trial':
            return self.best
        if name == 'best_value':
            return self.best.getattr(ex, 'value')
        if name == 'optimize':
            return host(name, self.optimize)
        raise Unsupported('study.%s' % name)


def store(fs, names, tag='cache/'):
    for n in names:
        num = n.split('_')[0]
        fs.files[tag + n] = ('torch', app('params' + num, sort='U')) if 'model' in n else ('structure', 'S' + num)


@contract('_remove_cached_data', ['P25'], [B + '_remove_cached_data'])
def _(ex):
    for num in (0, 1, 3, 13, 30, 2):
        fs = ex.gfs = GhostFS()
        store(fs, NAMES)
        st = StudyH()
        st.best = TrialH(num, ListV([]))
        task = mk_task(ex, study=st, cache_root=DirH('cache', NAMES))
        callq(ex, B + '_remove_cached_data', task)
        left = {n for n in NAMES if fs.files['cache/' + n] is not None}
        ex.check('exactly the files of the best trial are kept', left == {n for n in NAMES if n.split('_')[0] == str(num)})
    fs = ex.gfs = GhostFS()
    store(fs, NAMES)
    callq(ex, B + '_remove_cached_data', mk_task(ex, study=None, cache_root=DirH('cache', NAMES)))
    ex.check('nothing is removed without a study', all(fs.files['cache/' + n] is not None for n in NAMES))


def run_contract(direction, has_struct):
    def run(ex):
        fs = ex.gfs = GhostFS()
        nums = (0, 1, 3, 13, 30)
        names = ['%d_model.pth' % i for i in nums] + (['%d_structure.dhg' % i for i in nums] if has_struct else [])
        dev = Opaque('device')
        data = DictV({'structure': StructH('of the last trial')} if has_struct else {})
        seed = isym(ex, 'theseed')
        trials = isym(ex, 'ntrials', 1)
        epochs = isym(ex, 'epochs', 1)
        st, events = StudyH(), []
        task = mk_task(ex, data=data, device=dev, cache_root=DirH('cache', names))

        task.attrs['experiment'] = host('experiment', lambda ex, a, k: events.append(('experiment', a[0])))

        def optimize(ex, a, k):
            ex.check('the study is created first', events == ['study'])
            f, t = (a[0] if a else k['func']), TrialH(0, ListV([]))
            ex.call(f, [t], {})
            ex.check('the study optimizes the experiment', events[1:] == [('experiment', t)])
            del events[1:]
            ex.check('with the requested number of trials', eq(lift(k['n_trials'] if 'n_trials' in k else a[1]), trials))
            ex.check('for the requested number of epochs', eq(lift(task.attrs['max_epoch']), epochs))
            ex.check('in the requested direction', task.attrs['direction'] == direction)
            store(fs, names)
            st.best = TrialH(3, ListV([]))
            events.append('optimized')
        st.optimize = optimize

        def create(ex, a, k):
            ex.check('the study has the requested direction', k.get('direction') == direction)
            events.append('study')
            return st

        def sampler(ex, a, k):
            ex.check('the trials are sampled with the seed of the package', eq(lift(k.get('seed')), seed))
            return Opaque('sampler')
        ex.suite.externals = dict(ex.suite.externals, **{'optuna.create_study': create, 'optuna.samplers.TPESampler': sampler})
        ex.suite.summaries = dict(ex.suite.summaries, **{'dhg.random._seed:seed': lambda ex, a, k: seed, 'dhg.structure.base:load_structure': load})
        loaded = ModelH(ZERO, 'best')

        def build(ex, a, k):
            ex.check('the best model is built for the best trial', a[0] is st.best)
            return loaded

        def test(ex, a, k):
            events.append('test')
            bm, bs = task.attrs.get('best_model'), task.attrs.get('best_structure')
            ex.check('tested with the stored data', not a and not k)
            ex.check('the parameters of the best trial are tested', isinstance(bm, ModelH) and isinstance(bm.version, Term) and eq(bm.version, app('params3', sort='U')))
            ex.check('on the device', bm.device is dev)
            if has_struct:
                ex.check('with the structure of the best trial', isinstance(bs, StructH) and bs.name == 'S3' and bs.device is dev)
            else:
                ex.check('without a structure', bs is None)
            return DictV({'acc': rsym(ex, 'acc')})
        task.attrs['model_builder'], task.attrs['test'] = host('model_builder', build), host('test', test)
        callq(ex, B + 'run', task, epochs, trials, direction)
        ex.check('one study, one optimization, one test at the end', events == ['study', 'optimized', 'test'])
        left = {n for n in names if fs.files['cache/' + n] is not None}
        ex.check('exactly the files of the best trial are kept', left == {n for n in names if n.startswith('3_')})
    return run


def load(ex, a, k):
    fs = fsof(ex)
    v = fs.files.get(tokey(a[0]).key)
    if v is None:
        raise PyRaise('FileNotFoundError', tokey(a[0]).key, ex.where)
    return StructH(v[1])


for _d in ('maximize', 'minimize'):
    for _hs in (True, False):
        contract('run, %s%s' % (_d, ', structure' if _hs else ''), ['P25'], [B + 'run', B + '_remove_cached_data'])(run_contract(_d, _hs))


# ------------------------------------------------------------------ one epoch of training, validation, testing
class NetH(ModelH):
    """A model that computes; every call records the mode it is in and how often it was trained."""

    def __init__(self, ev, outputs, name='net'):
        ModelH.__init__(self, ZERO)
        self.ev, self.outputs, self.name = ev, outputs, name

    def callobj(self, ex, a, k):
        self.ev.append(('forward', self, self.mode, list(a), dict(k)))
        return self.outputs()


class LossH(HostObj):
    always_true = True

    def __init__(self, ev):
        self.birth = birth()
        self.ev = ev

    def getattr(self, ex, name):
        if name == 'backward':
            return host(name, lambda ex, a, k: self.ev.append(('backward',)))
        if name in ('item', 'detach', 'cpu'):
            return host(name, lambda ex, a, k: self)
        raise Unsupported('loss.%s' % name)


class OptH(HostObj):
    always_true = True

    def __init__(self, ev):
        self.birth = birth()
        self.ev = ev

    def getattr(self, ex, name):
        if name in ('zero_grad', 'step'):
            return host(name, lambda ex, a, k: self.ev.append((name,)))
        raise Unsupported('optimizer.%s' % name)


class EvalH(HostObj):
    always_true = True

    def __init__(self, ev):
        self.birth = birth()
        self.ev = ev

    def getattr(self, ex, name):
        def f(ex, a, k):
            self.ev.append((name, list(a), dict(k)))
            return {'validate': app('valres', sort='R'), 'validate_epoch_res': app('valres', sort='R'), 'test': TESTRES, 'test_epoch_res': TESTRES}.get(name)
        return host(name, f)


TESTRES = DictV({'acc': app('testres', sort='R')})
V = 'dhg.experiments.vertex_classification:VertexClassificationTask'
CLS = [V, 'dhg.experiments.graphs.graph:GraphVertexClassificationTask', 'dhg.experiments.hypergraphs.hypergraph:HypergraphVertexClassificationTask']
U = 'dhg.experiments.recommender:UserItemRecommenderTask'


def short(q):
    return q.split(':')[1]


def vdata(ex, n, tag=''):
    d = {'features': tensor(ex, 'X' + tag, (n, isym(ex, 'C', 1))), 'structure': StructH('structure' + tag), 'labels': tensor(ex, 'Y' + tag, (n,), 'I')}
    for m in ('train', 'val', 'test'):
        d[m + '_mask'] = tensor(ex, m + tag, (n,), 'B')
    return DictV(d)


def same_masked(ex, label, got, x, mask):
    """got holds exactly the rows of x selected by the mask, in order."""
    if not isinstance(got, (tlib.RTensor, tlib.RowsTensor)):
        if isinstance(got, Tensor):
            ex.fail(label, 'not a selection')
        else:
            ex.undecided(label, type(got).__name__)
        return
    ls = list(leaves(got.nodes))
    if len(ls) != 1 or len(ls[0][0]) != 1:
        ex.undecided(label, 'selected in another way')
        return
    ((v, hi),), cs, val = ls[0]
    n, rng = x.shape[0], [le(ZERO, v), lt(v, hi)]
    ex.check(label + ': all rows are considered', eq(hi, n))
    ex.check(label + ': exactly the selected ones are used', eq(and_(*cs), mask.fn(v)), hyps=rng)
    if isinstance(got, tlib.RowsTensor):
        j = fresh('j')
        base = [b for b in vars(got).values() if isinstance(b, Tensor)]
        if len(base) != 1 or len(x.shape) != 2:
            ex.undecided(label, 'selected in another way')
            return
        ex.check(label, eq_any(base[0].fn(lift(val), j), x.fn(v, j)), hyps=rng + [mask.fn(v), le(ZERO, j), lt(j, x.shape[1])])
    else:
        ex.check(label, eq_any(lift(val), x.fn(v)), hyps=rng + [mask.fn(v)])


def kinds(ev):
    return [e[0] for e in ev]


for _c in CLS:
    def _train(ex, cls=_c):
        n, q = isym(ex, 'n', 1), isym(ex, 'Q', 1)
        data, ev = vdata(ex, n), []
        out = tensor(ex, 'out', (n, q))
        net, opt, loss = NetH(ev, lambda: out), OptH(ev), LossH(ev)
        net.mode = 'eval'
        seen = []

        def crit(ex, a, k):
            ev.append(('criterion',))
            seen.append((a, k))
            return loss
        task = mk_task(ex, cls, data=data, evaluator=EvalH(ev))
        ex.call(ex.getattr(task, 'train'), [data, net, opt, host('criterion', crit)], {})
        ks = kinds(ev)
        core = [x for x in ks if x != 'zero_grad']
        ex.check('one forward pass, one loss, one backward pass, one step, in this order', core == ['forward', 'criterion', 'backward', 'step'])
        ex.check('gradients are cleared before the backward pass', 'zero_grad' in ks[:ks.index('backward')] if 'backward' in ks else False)
        ex.check('gradients are not cleared between the backward pass and the step', 'zero_grad' not in ks[ks.index('backward'):ks.index('step')] if 'step' in ks else False)
        f = ev[ks.index('forward')]
        ex.check('the given model in training mode', f[1] is net and f[2] == 'train')
        ex.check('gets the features and the structure', len(f[3]) == 2 and f[3][0] is data.d['features'] and f[3][1] is data.d['structure'])
        a = seen[0][0]
        same_masked(ex, 'the loss compares exactly the outputs of the training part', a[0], out, data.d['train_mask'])
        same_masked(ex, 'with exactly the labels of the training part', a[1], data.d['labels'], data.d['train_mask'])
    contract('%s.train' % short(_c), ['P25'], [V + '.train', _c + '.train'])(_train)

    for _how in ('validate', 'test stored', 'test given'):
        def _eval(ex, cls=_c, how=_how):
            n, q = isym(ex, 'n', 1), isym(ex, 'Q', 1)
            ev = []
            own, given = vdata(ex, n), vdata(ex, n, '2')
            out, out2 = tensor(ex, 'out', (n, q)), tensor(ex, 'out2', (n, q))
            best, net = NetH(ev, lambda: out), NetH(ev, lambda: out2)
            best.mode = net.mode = 'train'
            bs, dev = StructH('best'), Opaque('device')
            task = mk_task(ex, cls, data=own, evaluator=EvalH(ev), best_model=best, best_structure=bs, device=dev)
            if how == 'validate':
                data, m, o, st, part = given, net, out2, given.d['structure'], 'val'
                r = ex.call(ex.getattr(task, 'validate'), [given, net], {})
                ex.check('the score of the evaluator is returned', r is app('valres', sort='R'))
            elif how == 'test stored':
                data, m, o, st, part = own, best, out, bs, 'test'
                r = ex.call(ex.getattr(task, 'test'), [], {})
            else:
                data, m, o, st, part = given, net, out2, given.d['structure'], 'test'
                r = ex.call(ex.getattr(task, 'test'), [given, net], {})
            if how != 'validate':
                ex.check('the results of the evaluator are returned', r is TESTRES)
            ks = kinds(ev)
            ex.check('one forward pass, then one evaluation', ks == ['forward', 'validate' if how == 'validate' else 'test'])
            f = ev[0]
            ex.check('the model is in evaluation mode', f[1] is m and f[2] == 'eval')
            ex.check('gets the features and the structure', len(f[3]) == 2 and f[3][0] is data.d['features'] and f[3][1] is st)
            if how == 'test given':
                ex.check('model and structure are on the device', m.device is dev and st.device is dev)
            a = ev[1][1]
            same_masked(ex, 'exactly the labels of the %s part are the truth' % part, a[0], data.d['labels'], data.d[part + '_mask'])
            same_masked(ex, 'exactly the outputs of the %s part are the prediction' % part, a[1], o, data.d[part + '_mask'])
        contract('%s.%s' % (short(_c), _how), ['P25'], [V + '.' + _how.split()[0], _c + '.' + _how.split()[0]])(_eval)


# ------------------------------------------------------------------ recommender
class Proto(HostObj):
    """Ghost state of the optimisation: phase of the current batch, number of steps taken so far."""

    def __init__(self):
        self.birth = birth()
        self.phase, self.steps = 'ready', ZERO


class EachBatch(LoopSpec):
    """Contract of the loop over the batches of a loader: before batch v exactly v steps were taken (or v batches were added)."""

    def __init__(self, pr):
        self.pr, self.used = pr, False

    def match(self, ex, loop, locs, frame):
        return any(l.o is self.pr for l in locs.values())

    def locs(self, locs):
        return [l for l in locs.values() if l.o is self.pr]

    def init(self, ex, v, hi):
        self.used = True
        ex.check('nothing is pending before the first batch', self.pr.phase == 'ready' and self.pr.steps is ZERO)

    def enter(self, ex, v):
        ex.setattr(self.pr, 'phase', 'ready')
        ex.setattr(self.pr, 'steps', v)

    def leave(self, ex, v):
        ex.check('every batch is finished', self.pr.phase == 'ready')
        ex.check('every batch is used exactly once', eq(lift(self.pr.steps), add(v, ONE)))

    def finish(self, ex, n):
        ex.setattr(self.pr, 'phase', 'ready')
        ex.setattr(self.pr, 'steps', lift(n))


class RecNet(ModelH):
    def __init__(self, pr, nu, ni, d, has_struct, struct, tag=''):
        ModelH.__init__(self, ZERO)
        self.pr, self.dims, self.has_struct, self.struct, self.tag_ = pr, (nu, ni, d), has_struct, struct, tag
        self.want = None

    def callobj(self, ex, a, k):
        nu, ni, d = self.dims
        ex.check('the model runs in %s mode' % self.want, self.mode == self.want)
        ex.check('on the structure, if there is one', a == [self.struct] and not k if self.has_struct else not a and not k)
        v = self.pr.steps if self.want == 'train' else ZERO
        return (Tensor((nu, d), lambda i, j: app('eu' + self.tag_, v, i, j, sort='R'), 'f'), Tensor((ni, d), lambda i, j: app('ei' + self.tag_, v, i, j, sort='R'), 'f'))


def loader(ex, name, kinds, ni=None, nu=None):
    """A data loader of k batches of bs(q) samples each."""
    k = isym(ex, name + '_k', 0)
    bs = lambda q: app(name + '_bs', lift(q), sort='I')
    ex.th.axiom(name + '_bs', lambda q: [le(ONE, bs(q))])
    q = fresh('q')
    ts = []
    for nm, dims, sort in kinds:
        ts.append(Tensor((bs(q),) + dims, (lambda nm, sort: lambda *ix: app(nm, q, *ix, sort=sort))(nm, sort), 'f' if sort == 'R' else 'i'))
    return k, bs, ListV((Loop(q, k, (Item(tuple(ts)),)),), frozen='the data loader')


def ranged(ex, nm, hi):
    ex.th.axiom(nm, lambda *a: [le(ZERO, app(nm, *a, sort='I')), lt(app(nm, *a, sort='I'), hi)])


for _hs in (True, False):
    @contract('recommender train%s' % (', structure' if _hs else ''), ['P25'], [U + '.train'])
    def _(ex, hs=_hs):
        pr = Proto()
        nu, ni, d = isym(ex, 'nu', 1), isym(ex, 'ni', 1), isym(ex, 'd', 1)
        k, bs, ld = loader(ex, 'tr', [('users', (), 'I'), ('pos', (), 'I'), ('neg', (), 'I')])
        ranged(ex, 'users', nu), ranged(ex, 'pos', ni), ranged(ex, 'neg', ni)
        st = StructH('structure')
        data = DictV(dict({'train_loader': ld, 'test_loader': Opaque('test loader')}, **({'structure': st} if hs else {})))
        net = RecNet(pr, nu, ni, d, hs, st)
        net.want, net.mode = 'train', 'eval'
        spec = EachBatch(pr)
        ex.loop_specs.append(spec)

        def step(to, *frm):
            def f(ex, a, k):
                ex.check('%s in turn' % to, pr.phase in frm)
                ex.setattr(pr, 'phase', to)
            return f

        class Opt(HostObj):
            always_true = True
            birth = 0

            def getattr(self, ex, name):
                if name == 'zero_grad':
                    def zg(ex, a, k):
                        ex.check('gradients are cleared between a step and the next backward pass', pr.phase in ('ready', 'cleared', 'loss'))
                        ex.setattr(pr, 'phase', {'ready': 'cleared', 'cleared': 'cleared', 'loss': 'clearedloss'}.get(pr.phase, 'broken'))
                    return host(name, zg)
                if name == 'step':
                    def st(ex, a, k):
                        ex.check('a step follows the backward pass', pr.phase == 'grad')
                        ex.setattr(pr, 'phase', 'ready')
                        ex.setattr(pr, 'steps', add(lift(pr.steps), ONE))
                    return host(name, st)
                raise Unsupported('optimizer.%s' % name)

        class Loss(HostObj):
            always_true = True
            birth = 0

            def getattr(self, ex, name):
                if name == 'backward':
                    def bw(ex, a, k):
                        ex.check('the backward pass follows the loss, with cleared gradients', pr.phase == 'clearedloss')
                        ex.setattr(pr, 'phase', 'grad')
                    return host(name, bw)
                raise Unsupported('loss.%s' % name)

        def crit(ex, a, kw):
            v = ex.loop_vars[-1]
            ex.check('one loss per batch', pr.phase in ('ready', 'cleared'))
            ex.setattr(pr, 'phase', 'clearedloss' if pr.phase == 'cleared' else 'loss')
            ex.check('the loss gets both embeddings, the batch and the model', len(a) == 5 and kw.get('model') is net)
            teq(ex, 'the current user embeddings', a[0], (nu, d), lambda i, j: app('eu', v, i, j, sort='R'))
            teq(ex, 'the current item embeddings', a[1], (ni, d), lambda i, j: app('ei', v, i, j, sort='R'))
            for x, nm in zip(a[2:], ('users', 'pos', 'neg')):
                teq(ex, 'the %s of the batch' % nm, x, (bs(v),), lambda i: app(nm, v, i, sort='I'))
            return Loss()
        task = mk_task(ex, U, data=data)
        callq(ex, U + '.train', task, data, net, Opt(), host('criterion', crit))
        if spec.used:
            ex.check('every batch of the training loader is used once', eq(lift(pr.steps), k))
        else:
            ex.undecided('every batch of the training loader is used once', 'another form of loop')

    for _how in ('validate', 'test stored', 'test given'):
        @contract('recommender %s%s' % (_how, ', structure' if _hs else ''), ['P25'], [U + '.' + _how.split()[0]])
        def _(ex, hs=_hs, how=_how):
            pr = Proto()
            nu, ni, d = isym(ex, 'nu', 1), isym(ex, 'ni', 1), isym(ex, 'd', 1)
            mk = lambda t: loader(ex, 'te' + t, [('users' + t, (), 'I'), ('mask' + t, (ni,), 'R'), ('truth' + t, (ni,), 'R')])
            ranged(ex, 'users', nu), ranged(ex, 'users2', nu)
            (k, bs, ld), (k2, bs2, ld2) = mk(''), mk('2')
            st, dev, bstruct = StructH('structure'), Opaque('device'), StructH('best')
            D = lambda l: DictV(dict({'train_loader': Opaque('train loader'), 'test_loader': l}, **({'structure': st} if hs else {})))
            own, given = D(ld), D(ld2)
            stored = how == 'test stored'
            t = '' if stored else '2'
            best, net = RecNet(pr, nu, ni, d, hs, bstruct), RecNet(pr, nu, ni, d, hs, st, '2')
            best.want = net.want = 'eval'
            best.mode = net.mode = 'train'
            m = best if stored else net
            B_ = bs if stored else bs2
            spec = EachBatch(pr)
            ex.loop_specs.append(spec)
            pre = 'validate' if how == 'validate' else 'test'
            done = []

            class Ev(HostObj):
                always_true = True
                birth = 0

                def getattr(self, ex, name):
                    if name == pre + '_add_batch':
                        def addb(ex, a, kw):
                            v = ex.loop_vars[-1]
                            ex.check('the epoch result is taken after all batches', not done)
                            ex.setattr(pr, 'steps', add(lift(pr.steps), ONE))
                            teq(ex, 'the true ratings of the batch', a[0], (B_(v), ni), lambda i, j: app('truth' + t, v, i, j, sort='R'))
                            teq(ex, 'the predictions for the users of the batch, masked', a[1], (B_(v), ni), lambda i, j: add(
                                ssum(d, lambda c: mul(app('eu' + t, ZERO, app('users' + t, v, i, sort='I'), c, sort='R'), app('ei' + t, ZERO, j, c, sort='R'))), app('mask' + t, v, i, j, sort='R')))
                        return host(name, addb)
                    if name == pre + '_epoch_res':
                        def er(ex, a, kw):
                            done.append(pr.steps)
                            return TESTRES if pre == 'test' else app('valres', sort='R')
                        return host(name, er)
                    raise Unsupported('evaluator.%s' % name)
            task = mk_task(ex, U, data=own, evaluator=Ev(), best_model=best, best_structure=bstruct if hs else None, device=dev)
            r = callq(ex, U + '.' + how.split()[0], task, *([] if stored else [given, net]))
            ex.check('the epoch result of the evaluator is returned', len(done) == 1 and (r is TESTRES if pre == 'test' else r is app('valres', sort='R')))
            if pre == 'test':
                ex.check('the model is on the device', m.device is dev and (not hs or m.struct.device is dev))
            if spec.used:
                ex.check('every batch of the test loader is evaluated once', eq(lift(pr.steps), k if stored else k2))
            else:
                ex.undecided('every batch of the test loader is evaluated once', 'another form of loop')


for _c in CLS + [U]:
    @contract('%s: experiment and run are those of the base task' % short(_c), ['P25'], [_c + '.experiment', _c + '.run'])
    def _(ex, cls=_c):
        got = []
        names = {'experiment': ['self', 'trial'], 'run': ['self', 'max_epoch', 'num_trials', 'direction']}

        def base(nm):
            def f(ex, a, k):
                got.append((nm, dict(dict(zip(names[nm], a)), **k)))
                return 'the result of ' + nm
            return f
        ex.suite.summaries = dict(ex.suite.summaries, **{B + nm: base(nm) for nm in names})
        task, trial = mk_task(ex, cls), TrialH(5, ListV([]))
        r = ex.call(ex.getattr(task, 'experiment'), [trial], {})
        ex.check('the experiment of the base task', got == [('experiment', {'self': task, 'trial': trial})] and r == 'the result of experiment')
        del got[:]
        ex.call(ex.getattr(task, 'run'), [13], {})
        ex.check('the run of the base task, one trial, maximizing by default', [(n, {k: v for k, v in d.items()}) for n, d in got] == [('run', {'self': task, 'max_epoch': 13, 'num_trials': 1, 'direction': 'maximize'})])
        del got[:]
        ex.call(ex.getattr(task, 'run'), [13, 4], {'direction': 'minimize'})
        ex.check('the run of the base task, as requested', got == [('run', {'self': task, 'max_epoch': 13, 'num_trials': 4, 'direction': 'minimize'})])
