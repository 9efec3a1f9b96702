"""One run in one forked process: nothing a run does is seen by another run."""
import os
import pickle
import resource
import select
import signal
import sys
import time
import traceback

from . import core

CPU_LIMIT = int(os.environ.get('VP_CPU_LIMIT', '120'))     # CPU seconds per run
WALL_LIMIT = int(os.environ.get('VP_WALL_LIMIT', '400'))   # wall seconds per run, for deadlocks


def touches_repo(exc):
    seen = set()
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        tb = exc.__traceback__
        while tb is not None:
            if tb.tb_frame.f_code.co_filename.startswith(core.SRC):
                return True
            tb = tb.tb_next
        exc = exc.__cause__ or exc.__context__
    return False


def execute(prop, plan):
    """Run a plan in this process; returns the result dictionary."""
    ctx = core.Ctx(plan)
    res = {'status': 'ok', 'cls': None, 'detail': None}
    core.Env.start(ctx.plan.get('env'))
    try:
        prop.execute(ctx, ctx.plan)
    except core.Violation as v:
        res.update(status='violation', cls=v.cls, detail=v.detail)
    except BaseException as e:  # noqa: BLE001
        if ctx.violation is None:
            text = ''.join(traceback.format_exception(e))
            if touches_repo(e):
                res.update(status='violation', cls='unexpected-error', detail=f'{type(e).__name__}: {e}', trace=text)
            else:
                res.update(status='harness-error', detail=text)
    if ctx.violation is not None and res['status'] != 'violation':
        res.update(status='violation', cls=ctx.violation.cls, detail=ctx.violation.detail)
    core.Env.rng = None
    ctx.faults.update(core.Env.counts)
    log = '\n'.join(ctx.log)
    res.update(plan=ctx.plan, log_digest=core.digest(log), log_len=len(ctx.log), faults=dict(ctx.faults),
               faults_planned=dict(ctx.faults_planned), probes=dict(ctx.probes), checks=ctx.checks, ops=ctx.ops,
               sim_days=ctx.sim_days, switches=ctx.switches, nested=ctx.nested,
               inter=core.digest(repr(ctx.inter)) if ctx.inter else None, states=sorted(ctx.states)[:64],
               tail=ctx.log[-12:], log=log if os.environ.get('VP_KEEP_LOG') or res['status'] != 'ok' else None)
    if res['status'] == 'ok':
        del res['plan']
    return res


def run_forked(prop, plan):
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            resource.setrlimit(resource.RLIMIT_CPU, (CPU_LIMIT, CPU_LIMIT + 5))
            resource.setrlimit(resource.RLIMIT_DATA, (4 << 30, 4 << 30))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            devnull = os.open(os.devnull, os.O_WRONLY)
            os.dup2(devnull, 1)
            data = pickle.dumps(execute(prop, plan))
            with os.fdopen(w, 'wb') as f:
                f.write(data)
            code = 0
        except BaseException:  # noqa: BLE001
            traceback.print_exc()
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    deadline = time.monotonic() + WALL_LIMIT
    hung = False
    while True:
        ready, _, _ = select.select([r], [], [], max(0.0, deadline - time.monotonic()))
        if not ready:
            hung = True
            os.kill(pid, signal.SIGKILL)
            break
        data = os.read(r, 1 << 20)
        if not data:
            break
        chunks.append(data)
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if hung or (os.WIFSIGNALED(status) and os.WTERMSIG(status) in (signal.SIGXCPU, signal.SIGKILL)):
        return {'status': 'violation', 'cls': 'no-progress', 'plan': plan, 'log': None, 'log_digest': 'hang',
                'detail': f'the run did not end within {CPU_LIMIT} CPU seconds'}
    if not chunks:
        return {'status': 'harness-error', 'detail': f'run died with wait status {status}', 'plan': plan}
    return pickle.loads(b''.join(chunks))
