"""Plan -> world -> finished run."""
from . import boot
from . import world as worldmod
from . import apps, script


def make(plan):
    boot.reset(plan['seed'], plan.get('epoch', boot.DEFAULT_EPOCH), plan.get('tz', 'UTC'), plan.get('zones'))
    w = worldmod.World(plan)

    def booter(cls):
        async def b(inc):
            inc.app = cls(inc)
            await inc.app.boot()
        return b
    skew = plan.get('skew', {})
    if 'vtn' in plan:
        w.add_host('vtn', booter(apps.VtnApp), skew.get('vtn', 0.0))
    else:
        w.add_host('vtn', booter(script.ScriptVtn), skew.get('vtn', 0.0))
    for n in plan.get('vens', {}):
        w.add_host(n, booter(apps.VenApp), skew.get(n, 0.0))
    for n in plan.get('raws', []):
        w.add_host(n, booter(apps.RawApp))

    def opctl(op):
        inc = w.hosts[op['node']].inc
        if inc and inc.alive and inc.app is not None:
            if inc.paused:              # a stalled process does not act either
                w.rec('op_skipped', node=inc.label, op=op['op'])
                return
            inc.ctx.copy().run(inc.app.op, op)
    w.opctl = opctl
    return w


def run(plan):
    w = make(plan)
    ops = [{'t': 0.0, 'op': 'start', 'node': n} for n in plan.get('raws', [])]
    w.plan = dict(plan, ops=ops + plan['ops'])
    w.run(plan['horizon'], plan.get('max_steps', 600000))
    w.plan = plan
    return w
