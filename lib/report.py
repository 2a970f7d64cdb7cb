import os, sys, json, time, traceback
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class AnalysisBroken(Exception):
    """an anchor vanished or a rule matched (almost) nothing: neither a pass nor a violation"""


class Ctx:
    def __init__(self, pid, rule):
        self.pid = pid
        self.rule = rule
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        self.viol = []
        self.counts = {}
        self.samples = []
        self.notes = []
        self.assumptions = []
        self.skipped = []

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def note(self, s):
        self.notes.append(s)

    def skip(self, s):
        """an instance the analysis cannot decide on this tree (reported, never an alarm)"""
        self.skipped.append(s)

    def violation(self, key, where, msg):
        """key: stable id of the failing instance (no line numbers)"""
        if any(v['key'] == key for v in self.viol):
            return
        self.viol.append(dict(key=key, where=where, message=msg))

    def floor(self, k, minimum):
        if self.counts.get(k, 0) < minimum:
            raise AnalysisBroken('%s: only %d %s analysed, at least %d expected' % (self.pid, self.counts.get(k, 0), k, minimum))


def known_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    try:
        return json.load(open(p))
    except OSError:
        return []


def finish(ctx):
    known = {f['key']: f for f in known_findings() if f.get('property') == ctx.pid and not f.get('fixed')}
    new = [v for v in ctx.viol if v['key'] not in known]
    seen = {v['key'] for v in ctx.viol}
    for k, f in known.items():
        if k in seen:
            print('KNOWN-FINDING: property=%s %s' % (ctx.pid, f.get('what', k)))
        else:
            ctx.note('known finding no longer present: ' + k)
    ev = dict(property=ctx.pid, tier=ctx.tier, seed=ctx.seed, level='other',
              coverage=dict(explanation=ctx.rule, counts=ctx.counts, samples=ctx.samples,
                            undecided=ctx.skipped[:60], undecided_count=len(ctx.skipped), notes=ctx.notes[:60],
                            known_findings_seen=sorted(k for k in known if k in seen)),
              assumptions=ctx.assumptions, wall_s=round(time.time() - ctx.t0, 3), violations=len(new))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    s = json.dumps(ev, indent=1)
    while len(s) > 60000 and ev['coverage']['undecided']:
        ev['coverage']['undecided'] = ev['coverage']['undecided'][:len(ev['coverage']['undecided']) // 2]
        ev['coverage']['notes'] = ev['coverage']['notes'][:10]
        s = json.dumps(ev, indent=1)
    with open(os.path.join(VERIF, 'evidence', ctx.pid + '.json'), 'w') as f:
        f.write(s + '\n')
    rp = os.path.join(VERIF, 'evidence', ctx.pid + '.violations.json')
    if new:
        with open(rp, 'w') as f:
            json.dump(dict(property=ctx.pid, rule=ctx.rule, violations=new), f, indent=1)
        for v in new[:40]:
            print('%s: %s [%s]' % (v['where'], v['message'], v['key']))
        print('VIOLATION property=%s replay=%s' % (ctx.pid, rp))
        return 1
    if os.path.exists(rp):
        os.remove(rp)
    print('%s: held; %s; undecided %d; %.1fs' % (ctx.pid, ', '.join('%s=%s' % kv for kv in sorted(ctx.counts.items())), len(ctx.skipped), time.time() - ctx.t0))
    return 0


def main(pid, rule, fn):
    ctx = Ctx(pid, rule)
    try:
        fn(ctx)
    except AnalysisBroken as e:
        if ctx.viol:
            # something concrete was found before the anchor check failed
            return finish(ctx)
        print('ANALYSIS-BROKEN', e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    return finish(ctx)
