"""Time stepping."""
from tdyver.harness import *
from tdyver import petsc

from . import fvtpf, mpfao
from .C07 import before_step
from .C10 import before_step as before_step_mpfao

SRCS = ['src/tdyti.c', 'src/tdycore.c'] + fvtpf.SRCS + ['src/fv/mpfao/tdympfao_snes.c', 'src/fv/mpfao/tdympfao_snes_salinity.c']


def integrator(v, readonly=False):
    ti = v.struct('ti', '_p_TDyTimeIntegrator', readonly=readonly)
    v.requires(rlt(R(0), ti.get('dt')), 'the time step is positive')
    v.requires(rlt(R(0), ti.get('dt_growth_factor')), 'the growth factor is positive')
    v.requires(rlt(R(0), ti.get('dt_max')), 'the largest time step is positive')
    return ti


def sol(k, t):
    return app('solution', (k, t), 'R')


def implicit(newv):
    """steps with a nonlinear solver that may fail, at any time and any number of times"""
    v = newv()
    ex = v.ex
    ti, tdy, io = integrator(v), v.struct('tdy', '_p_TDy'), v.struct('io', '_p_TDyIO', readonly=True)
    soln, prev = v.opaque('soln'), v.opaque('soln_prev')
    snes = v.opaque('snes')
    ti.set('snes', snes)
    tdy.set('ti', ti)
    tdy.set('io', io)
    tdy.set('soln', soln)
    tdy.set('soln_prev', prev)
    # what a vector holds: the outcome of the solve of that number, or (-1) the last accepted solution at the beginning
    holds = {soln: v.ghost('held by soln', 'I', I(-1)), prev: v.ghost('held by soln_prev', 'I', I(-1))}
    v.requires(req(ti.get('dt_save'), R(0)), 'no time step is cut short by an earlier target')
    v.requires(ieq(ti.get('time_integration_method'), I(v.prog.enum('TDySNES'))))
    v.requires(or_(*[ieq(tdy.get('options.discretization'), I(v.prog.enum(q))) for q in ('MPFA_O', 'MPFA_O_DAE', 'MPFA_O_TRANSIENTVAR', 'BDM', 'WY', 'FV_TPF')]))
    v.requires(or_(*[ieq(tdy.get('options.mode'), I(v.prog.enum(q))) for q in ('RICHARDS', 'TH', 'SALINITY')]))
    v.requires(ile(I(1), io.get('checkpoint_timestep_interval')), 'the interval of checkpoints is positive')
    sync, t0, i0 = v.real('sync_time'), ti.get('time'), ti.get('istep')
    T = v.ghost('time covered by accepted solutions', 'R', t0)
    tried = v.ghost('solves so far', 'I', I(-1))
    acc = v.ghost('accepted solve', 'I', I(-1))
    count = v.ghost('accepted steps', 'I', I(0))
    pre = v.ghost('time step the stored quantities are for', 'R', R(0))
    saved = v.ghost('solve written to the checkpoint', 'I', I(-1))
    time, dt = lambda st: ti.get('time', st), lambda st: ti.get('dt', st)
    known = lambda st, a: ieq(holds[a].get(st), acc.get(st))
    v.ex.models['PetscObjectGetComm'] = v.ex.models['PetscPrintf'] = v.ex.models['sprintf'] = lambda ex, fr, x, st, a: [(st, I(0))]

    def getdm(ex, fr, x, st, a):
        ex.store(st, a[1], v.opaque('dm'), 8, '')
        return [(st, I(0))]
    ex.contracts['TDyGetDM'] = getdm
    ex.models['DMGetDimension'] = lambda ex, fr, x, st, a: [(ex.store(st, a[1], v.int('dim'), 4, '') or st, I(0))]

    def presolve(modes):
        def m(ex, fr, x, st, a):
            w = ex.where(fr, x)
            ex.oblige('pre', st, peq(a[0], tdy.ptr), w + ' arguments')
            ex.oblige('pre', st, known(st, prev), w + ' stored quantities of the last accepted solution')
            pre.set(st, tdy.get('dtime', st))
            return [(st, I(0))]
        return m
    for q in ('TDyMPFAOSNESPreSolve', 'TDyMPFAOSNESPreSolve_Salinity', 'TDyFVTPFSNESPreSolve'):
        ex.contracts[q] = presolve(q)

    def solve(ex, fr, x, st, a):
        w = ex.where(fr, x)
        h = tdy.get('dtime', st)
        ex.oblige('pre', st, and_(peq(a[0], snes), peq(a[2], soln)), w + ' solves for the solution')
        ex.oblige('pre', st, known(st, soln), w + ' starts at the last accepted solution')
        ex.oblige('pre', st, known(st, prev), w + ' the last accepted solution is kept')
        ex.oblige('pre', st, req(pre.get(st), h), w + ' the stored quantities are for this time step')
        ex.oblige('pre', st, and_(rlt(R(0), h), rle(T.get(st) + h, sync)), w + ' the time step is positive and does not pass the target')
        t = tried.get(st) + I(1)
        tried.set(st, t)
        ok = ile(I(0), app('reason', (t,), 'I'))
        T.set(st, T.get(st) + ite(ok, h, R(0)))
        acc.set(st, ite(ok, t, acc.get(st)))
        count.set(st, count.get(st) + ite(ok, I(1), I(0)))
        holds[soln].set(st, t)
        return [(st, I(0))]
    ex.models['SNESSolve'] = solve

    def get(what):
        def m(ex, fr, x, st, a):
            ex.oblige('pre', st, peq(a[0], snes), ex.where(fr, x) + ' of this solver')
            r = app(what, (tried.get(st),), 'I')
            if what == 'reason':
                st.assume(and_(ile(I(-16), r), ilt(r, I(16))))      # every reason has a name
            ex.store(st, a[1], r, 4, '')
            return [(st, I(0))]
        return m
    ex.models['SNESGetIterationNumber'], ex.models['SNESGetLinearSolveIterations'], ex.models['SNESGetConvergedReason'] = get('nit'), get('lit'), get('reason')

    def cut(ex, fr, x, st, a):
        w = ex.where(fr, x)
        ex.oblige('pre', st, peq(a[0], tdy.ptr), w + ' arguments')
        holds[soln].set(st, holds[prev].get(st))
        pre.set(st, tdy.get('dtime', st))
        return [(st, I(0))]
    ex.contracts['TDyFVTPFSNESTimeCut'] = cut

    def copy(ex, fr, x, st, a):
        ex.oblige('pre', st, B(a[0] in holds and a[1] in holds), ex.where(fr, x) + ' copies a solution')
        if a[0] in holds and a[1] in holds:
            holds[a[1]].set(st, holds[a[0]].get(st))
        return [(st, I(0))]
    ex.models['VecCopy'] = copy

    def output(g):
        def m(ex, fr, x, st, a):
            w = ex.where(fr, x)
            ex.oblige('pre', st, and_(peq(a[0], tdy.ptr), req(time(st), T.get(st)), known(st, soln)), w + ' writes the accepted solution at its time')
            if g is not None:
                g.set(st, acc.get(st))
            return [(st, I(0))]
        return m
    ex.contracts['TDyIOWriteVec'], ex.contracts['TDyIOOutputCheckpoint'] = output(None), output(saved)
    names = v.ptr_table('names of the reasons', 32, lambda k: v.opaque('name'))
    v.external('SNESConvergedReasons', names.p(off=I(8 * 16)))
    ex.candidates += [
        ('the time is what the accepted solutions cover', lambda ex, st: req(time(st), T.get(st))),
        ('the time step is positive', lambda ex, st: rlt(R(0), dt(st))),
        ('no step is cut short', lambda ex, st: req(ti.get('dt_save', st), R(0))),
        ('a step cut short ends at the target', lambda ex, st: or_(req(ti.get('dt_save', st), R(0)), and_(rlt(R(0), ti.get('dt_save', st)), req(time(st) + dt(st), sync)))),
        ('the step does not pass the target', lambda ex, st: rle(time(st) + dt(st), sync)),
        ('the target is reached', lambda ex, st: req(time(st), sync)),
        ('a step cut short ended at the target', lambda ex, st: or_(req(ti.get('dt_save', st), R(0)), and_(rlt(R(0), ti.get('dt_save', st)), req(time(st), sync)))),
        ('the target is not passed', lambda ex, st: rle(time(st), ite(rlt(t0, sync), sync, t0))),
        ('the checkpoint is up to date', lambda ex, st: or_(ieq(saved.get(st), acc.get(st)), ieq(io.get('enable_checkpoint'), I(0)))),
        ('the target is not reached', lambda ex, st: rlt(time(st), sync)),
        ('the solver uses the time step', lambda ex, st: req(tdy.get('dtime', st), dt(st))),
        ('the solution is the accepted one', lambda ex, st: known(st, soln)),
        ('the previous solution is the accepted one', lambda ex, st: known(st, prev)),
        ('the steps are counted', lambda ex, st: ieq(ti.get('istep', st), i0 + count.get(st))),
        ('the time is not set back', lambda ex, st: rle(t0, time(st))),
    ]
    for st, ret in v.call('TDyTimeIntegratorRunToTime', tdy, sync, errors_ok=True):
        v.ensure(st, ieq(ret, I(0)), 'reports success')
        v.ensure(st, req(T.get(st), ite(rlt(t0, sync), sync, t0)), 'the accepted solutions cover the time up to the target exactly')
        v.ensure(st, req(time(st), T.get(st)), 'the time reported is that of the solution')
        v.ensure(st, and_(known(st, soln), known(st, prev)), 'the solution is the last accepted one')
        v.ensure(st, ieq(ti.get('istep', st), i0 + count.get(st)), 'each accepted step is counted once')
        v.ensure(st, rlt(R(0), dt(st)), 'the next time step is positive')
        v.ensure(st, req(ti.get('dt_save', st), R(0)), 'the next run starts with a time step of its own')
        v.ensure(st, implies(not_(ieq(io.get('enable_checkpoint'), I(0))), ieq(saved.get(st), acc.get(st))), 'with checkpoints enabled the last accepted solution is written')


def update(newv):
    v = newv()
    ti, sync = integrator(v), v.real('sync_time')
    old, save = ti.get('dt'), ti.get('dt_save')
    v.requires(rle(R(0), save))
    cut = rlt(R(0), save)
    for st, r in v.call('TDyTimeIntegratorUpdateDT', ti, sync):
        v.ensure(st, ieq(r, I(0)), 'reports success')
        b = ite(cut, save, old) * ti.get('dt_growth_factor')
        v.ensure(st, req(ti.get('dt', st), ite(rlt(ti.get('dt_max'), b), ti.get('dt_max'), b)), 'the step grows by the factor, from the step before it was cut short, to at most the largest step')
        v.ensure(st, req(ti.get('dt_save', st), R(0)), 'no step is cut short any more')
        v.ensure(st, req(ti.get('time', st), ite(cut, sync, ti.get('time'))), 'a step cut short ends at the target')
        for q in ('dt_init', 'dt_max', 'dt_growth_factor', 'dt_reduction_factor', 'final_time'):
            v.ensure(st, req(ti.get(q, st), ti.get(q)), 'other settings unchanged')


def target(newv):
    v = newv()
    ti, sync = integrator(v), v.real('sync_time')
    v.requires(rlt(ti.get('time'), sync))
    v.requires(req(ti.get('dt_save'), R(0)))
    rest, old = sync - ti.get('time'), ti.get('dt')
    for st, r in v.call('TDyTimeIntegratorSetTargetTime', ti, sync):
        v.ensure(st, ieq(r, I(0)), 'reports success')
        v.ensure(st, req(ti.get('dt', st), ite(rlt(rest, old), rest, old)), 'the step ends at the target at the latest')
        v.ensure(st, req(ti.get('dt_save', st), ite(rlt(rest, old), old, R(0))), 'the step before is kept')
        v.ensure(st, req(ti.get('time', st), ti.get('time')), 'the time is unchanged')


def settimestep(newv):
    v = newv()
    tdy, ti, d = v.struct('tdy', '_p_TDy', readonly=True), v.struct('ti', '_p_TDyTimeIntegrator'), v.real('dt')
    tdy.set('ti', ti)
    for st, r in v.call('TDyTimeIntegratorSetTimeStep', tdy, d):
        v.ensure(st, and_(ieq(r, I(0)), req(ti.get('dt', st), d), req(ti.get('dt_init', st), d)), 'the next steps, and a restart, use the given step')


def petsc_ts(newv):
    """with a PETSc time integrator, whose own clock is the simulated time"""
    v = newv()
    ex = v.ex
    ti, tdy = v.struct('ti', '_p_TDyTimeIntegrator'), v.struct('tdy', '_p_TDy')
    n = v.int('n')
    v.requires(ile(I(0), n))
    soln, prev, ts = v.vec('soln', n), v.vec('soln_prev', n), v.opaque('ts')
    ti.set('ts', ts)
    tdy.set('ti', ti)
    tdy.set('soln', soln.handle)
    tdy.set('soln_prev', prev.handle)
    v.requires(ieq(ti.get('time_integration_method'), I(v.prog.enum('TDyTS'))))
    sync = v.real('sync_time')
    v.requires(rlt(ti.get('time'), sync), 'the target lies ahead')
    clock = v.ghost('clock of the integrator', 'R', ti.get('time'))
    last = v.ghost('end of the integration', 'R', R(-1))
    step = v.ghost('first step', 'R', R(-1))
    ex.models['TSSetTimeStep'] = lambda ex, fr, x, st, a: [(step.set(st, a[1]) or st, I(0))]
    ex.models['TSSetMaxTime'] = lambda ex, fr, x, st, a: [(last.set(st, a[1]) or st, I(0))]

    def solve(ex, fr, x, st, a):
        w = ex.where(fr, x)
        ex.oblige('pre', st, and_(peq(a[0], ts), peq(a[1], soln.handle)), w + ' arguments')
        ex.oblige('pre', st, req(step.get(st), ti.get('dt_init')), w + ' starts with the initial time step')
        petsc.store_range(ex, st, soln.ptr, n, 'R', lambda i: sol(i, I(0)), w)
        clock.set(st, ite(rlt(clock.get(st), last.get(st)), last.get(st), clock.get(st)))
        return [(st, I(0))]
    ex.models['TSSolve'] = solve

    def gettime(ex, fr, x, st, a):
        ex.oblige('pre', st, peq(a[0], ts), ex.where(fr, x) + ' of this integrator')
        ex.store(st, a[1], clock.get(st), 8, '')
        return [(st, I(0))]
    ex.models['TSGetTime'] = gettime
    k = v.int('k')
    v.requires(and_(ile(I(0), k), ilt(k, n)))
    for st, ret in v.call('TDyTimeIntegratorRunToTime', tdy, sync):
        v.ensure(st, ieq(ret, I(0)), 'reports success')
        v.ensure(st, req(clock.get(st), sync), 'the integration ends at the target')
        v.ensure(st, req(ti.get('time', st), sync), 'the time reported is the target')
        v.ensure(st, and_(req(soln.now(st, k), sol(k, I(0))), req(prev.now(st, k), sol(k, I(0)))), 'the solution is kept')


def units(tier):
    return [('implicit steps to a target time', implicit),
            ('step after an accepted one', update),
            ('step before a target', target),
            ('setting the step', settimestep),
            ('integration by PETSc to a target time', petsc_ts),
            ('two-point: before a step', before_step('TDyFVTPFSNESPreSolve')),
            ('two-point: after a failed solve', before_step('TDyFVTPFSNESTimeCut')),
            ('multi-point: before a step', before_step_mpfao('TDyMPFAOSNESPreSolve', 'richards')),
            ('multi-point with salt: before a step', before_step_mpfao('TDyMPFAOSNESPreSolve_Salinity', 'salinity'))]
