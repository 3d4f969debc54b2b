"""The properties: for each one, how scenarios are generated and how histories are judged."""
import json
import os
import random
import re

from . import artifacts, gen, judge, kernel, nets, rdbs, world
from .judge import v

ALL = {}


def prop(cls):
    ALL[cls.id] = cls
    return cls


class Prop:
    id = None
    quick = 300          # scenarios of a quick check
    runs_hint = 3
    tool_logs = False

    def rng(self, seed, idx):
        return random.Random(f'{self.id}/{seed}/{idx}')

    def scenario(self, seed, idx):
        return gen.settle(self.generate(self.rng(seed, idx), idx))

    def generate(self, rng, idx):
        raise NotImplementedError

    def runs(self, w):
        """(step, run, event) of every kpex run of the history"""
        for i, (st, ev) in enumerate(zip(w.sc['steps'], w.events)):
            if st['op'] == 'run' and st.get('entry', 'kpex') == 'kpex':
                yield i, st, ev
            elif st['op'] == 'par':
                for r, sub in zip(st['runs'], ev['subs']):
                    if r.get('entry', 'kpex') == 'kpex':
                        yield i, r, sub

    def judge(self, w):
        out = []
        for i, st, ev in self.runs(w):
            out += judge.judge_results(w, st, ev, i)
        return out

    def nontrivial(self, w):
        """did this history exercise the property?"""
        return w.stats.get('results_compared', 0) > 0


# ---------------------------------------------------------------------------------------------------

@prop
class C01(Prop):
    """LVS reuse is invisible"""
    id = 'C01'
    quick = 300

    def generate(self, rng, idx):
        cells = rng.choice([('TOP',), ('TOP',), ('TOP', 'AUX')])
        sc = gen.base(rng, rng.randint(2, 4), cells, nested=0.3)
        st = sc['steps']
        gdss = ['in/a.gds'] if rng.random() < 0.7 else ['in/a.gds', rng.choice(['in/b.gds', 'in/sub/a.gds', 'other/a.gds'])]
        fmt = rng.choice(['gds', 'gds', 'gds.gz', 'oas'])
        if fmt != 'gds' and rng.random() < 0.7:
            gdss = [g.replace('.gds', '.' + fmt) for g in gdss]
        links = rng.random() < 0.2
        link = lambda: {'link': rng.choice(['new', 'same', None]), 'abs': rng.random() < 0.5} if links else {}
        for g in gdss:
            st.append(gen.gds_step(rng.randrange(len(sc['designs'])), g, fmt, dt=rng.choice([0, 0, -10**15, 10**12]), **link()))
        eng = gen.engines(rng, [(['2.5D'], 6), (['fastercap'], 1), (['2.5D', 'fastcap'], 1)])
        if links and rng.random() < 0.5:
            st.append({'op': 'linkdir', 'path': 'out', 'to': 'disk/o'})
        proto = gen.run(rng, eng, plain=0.8)
        outs = ['out'] if rng.random() < 0.6 else ['out', 'out2']
        cdir = rng.choice([None, None, 'cache', 'cache'])
        pdks = rng.random() < 0.2
        for _ in range(rng.randint(3, 6)):
            r = dict(proto, gds=rng.choice(gdss), out=rng.choice(outs), cell=rng.choice(cells), cellarg=len(cells) > 1)
            if cdir and rng.random() < 0.8:
                r['cache_dir'] = cdir
            if pdks:
                r['pdk'] = rng.choice(['sky130A', 'ihp_sg13g2'])
            if rng.random() < 0.1:
                r['cache'] = rng.random() < 0.3
            if rng.random() < 0.3:
                r = gen.spelling(rng, r)
                r['cellarg'] = r.get('cellarg') or len(cells) > 1
            if rng.random() < 0.2:
                r['tools'] = {'klayout': [{'edit': [rng.choice(['start', 'read', 'end']), r['gds'], rng.randrange(len(sc['designs'])), fmt]}]}
                if rng.random() < 0.3:
                    r['tools']['klayout'][0]['edit'].append(10**9)
            elif rng.random() < 0.1:
                r['tools'] = {'klayout': [{'mismatch': True}]}
            st.append(r)
            for _ in range(rng.choice([0, 1, 1, 1, 2])):
                k = rng.random()
                g = rng.choice(gdss)
                if k < 0.55:
                    st.append(gen.gds_step(rng.randrange(len(sc['designs'])), g, fmt,
                                           dt=rng.choice([0, 0, 1000, -1000, -10**9, -3600 * 10**9, -10**15, 10**12]), **link()))
                elif k < 0.65:
                    st.append({'op': 'touch', 'path': g, 'dt': rng.choice([0, -10**12, 10**12])})
                elif k < 0.8:
                    st.append({'op': 'clock', 'ns': rng.choice([10**9, 3600 * 10**9, -3600 * 10**9, -10**14]), 'jump': True})
                elif k < 0.88:
                    st.append({'op': 'rm', 'path': rng.choice(outs + ['cache'])})
                else:
                    st.append({'op': 'clock', 'ns': rng.choice([1000, 10**9, 86400 * 10**9])})
        if not any(s['op'] == 'run' for s in st[-1:]):
            st.append(dict(proto, gds=rng.choice(gdss), cell=rng.choice(cells), cellarg=len(cells) > 1))
        return sc

    def judge(self, w):
        out = super().judge(w)
        # an unchanged layout is not extracted again
        known = {}
        for i, (st, ev) in enumerate(zip(w.sc['steps'], w.events)):
            if st['op'] == 'rm':
                for k in [k for k in known if (k[0] + '/').startswith(st['path'] + '/')]:
                    del known[k]
            if st['op'] != 'run' or st.get('cache') is False:
                continue
            edit = any(s.get('edit') for s in st['tools'].get('klayout', ()))
            cd = st.get('cache_dir') or st.get('out', 'output') + '/.kpex_cache'
            key = (cd, st['gds'], st['cell'], st.get('pdk'))
            state = ev['before'].get(st['gds']) if st['gds'].startswith('in/') else None
            ran = any(t['kind'] == 'klayout' for t in ev['res'].get('tools', ()))
            if state and known.get(key) == state:
                w.count('reuse_expected')
                if ran:
                    out.append(v('not_reused', i, 'LVS ran again although layout and cell are unchanged since the last successful run with this cache'))
            if ran:
                known.pop(key, None)
                if ev['res']['rc'] == 0 and state and not edit and ev['after'].get(st['gds']) == state:
                    known[key] = state
        return out

    def nontrivial(self, w):
        runs = [ev for _, st, ev in self.runs(w)]
        return any(ev['res']['rc'] == 0 and not any(t['kind'] == 'klayout' for t in ev['res']['tools']) for ev in runs) or \
            sum(1 for s in w.sc['steps'] if s['op'] == 'gds') > 1


@prop
class C02(Prop):
    """a failed LVS never becomes a result"""
    id = 'C02'
    quick = 600

    def generate(self, rng, idx):
        sc = gen.base(rng, 2)
        st = sc['steps']
        st.append(gen.gds_step(0, dt=rng.choice([0, -10**15, 10**12])))
        proto = gen.run(rng, sets=[(['2.5D'], 5), (['fastercap'], 1), (['fastcap'], 1)], plain=0.8)
        if rng.random() < 0.3:
            proto['cache_dir'] = 'cache'
        if rng.random() < 0.4:
            st.append(dict(proto))
            if rng.random() < 0.7:
                st.append(gen.gds_step(1, dt=rng.choice([0, -10**9, -10**15])))
        for _ in range(rng.randint(1, 2)):
            o = gen.outcome(rng, 'klayout')
            if rng.random() < 0.3:
                o['chat'] = gen.chat(rng, big=0)
            r = dict(proto, tools={'klayout': [o]})
            if rng.random() < 0.3:
                r['cache'] = rng.random() < 0.5
            if rng.random() < 0.25:                 # an earlier run was killed during LVS, some LVS output remains
                k = dict(proto, tools={'klayout': [{'kill': rng.choice([1, 2, 2])}]})
                if rng.random() < 0.5:
                    k['orphan'] = 'finish'
                st.append(k)
                if rng.random() < 0.6:
                    st.append(gen.gds_step(rng.randrange(2), dt=rng.choice([0, -10**9])))
            st.append(r)
            if rng.random() < 0.2:
                st.append(gen.gds_step(rng.randrange(2), dt=rng.choice([0, -10**9])))
        for _ in range(rng.randint(1, 2)):
            st.append(dict(proto, **({'cache': False} if rng.random() < 0.15 else {})))
        return sc

    def judge(self, w):
        out = super().judge(w)
        for i, st, ev in self.runs(w):
            out += judge.judge_fatal(w, st, ev, i)
        return out

    def nontrivial(self, w):
        return any(judge.outcome_of(st, 'klayout') != 'ok' and any(t['kind'] == 'klayout' for t in ev['res'].get('tools', ()))
                   for _, st, ev in self.runs(w))


@prop
class C03(Prop):
    """recovery after a kill or a power loss"""
    id = 'C03'
    quick = 650

    def generate(self, rng, idx):
        fault = None
        if idx % 3 == 0:                            # a crash at each kind of operation on each kind of file
            eng, fault = gen.stratum(rng, idx // 3)
            fault = dict(fault, kind=rng.choice(['crash_before', 'crash_after', 'torn_write']), arg=rng.choice([0, 10, 500, 990]))
        sc = gen.base(rng, 2, ('TOP', 'AUX') if fault and 'exported' in fault['match'] else rng.choice([('TOP',), ('TOP',), ('TOP', 'AUX')]))
        st = sc['steps']
        st.append(gen.gds_step(0, dt=rng.choice([0, -10**15])))
        multi = len(sc['designs'][0]['cells']) > 1
        proto = gen.run(rng, [eng] if fault else None, plain=0.7, cellarg=multi)
        if rng.random() < 0.3:
            proto['cache_dir'] = 'cache'
        if rng.random() < 0.35:
            st.append(dict(proto))
            if rng.random() < 0.6:
                st.append(gen.gds_step(1, dt=rng.choice([0, -10**9])))
        for _ in range(1 if fault else rng.choice([1, 1, 1, 2])):
            r = dict(proto, faults=[fault or gen.crash(rng, proto['engines'])])
            if not fault and rng.random() < 0.15:                  # killed while a tool runs
                r['faults'] = []
                r['tools'] = {rng.choice(judge.used_tools(r)): [{'kill': rng.choice([0, 1, 2])}]}
            power = rng.random() < 0.4
            if not power and rng.random() < 0.5:
                r['orphan'] = 'finish'
            st.append(r)
            if power:
                st.append({'op': 'power', 'seed': rng.randrange(1 << 20), 'mode': rng.choice(['random', 'empty', 'zeros', 'prefix'])})
            if rng.random() < 0.2:
                st.append(gen.gds_step(rng.randrange(2), dt=rng.choice([0, -10**9])))
            if rng.random() < 0.2:
                st.append({'op': 'clock', 'ns': rng.choice([-3600 * 10**9, 10**12]), 'jump': True})
        for _ in range(rng.choice([1, 1, 2])):
            st.append(dict(proto))
        return sc

    def nontrivial(self, w):
        return any(ev['res']['rc'] == 'killed' for _, st, ev in self.runs(w))


@prop
class C04(Prop):
    """success means that everything requested is there"""
    id = 'C04'
    quick = 330

    def generate(self, rng, idx):
        multi = rng.random() < 0.25
        cells = rng.sample(gen.ODD_CELLS, 2) if rng.random() < 0.15 else ['TOP', 'AUX']
        cells = cells if multi else cells[:1]
        sc = gen.base(rng, 2, cells, rich=rng.random() < 0.5, nested=0.3, comb=0.2)
        st = sc['steps']
        st.append(gen.gds_step(0))
        eng = gen.engines(rng, [(['2.5D'], 2), (['fastercap'], 2), (['fastcap'], 2), (['magic'], 2), (['2.5D', 'fastercap'], 2),
                                (['2.5D', 'magic'], 1), (['fastercap', 'fastcap'], 1), (['2.5D', 'fastercap', 'fastcap', 'magic'], 2)])
        proto = gen.run(rng, eng, plain=0.3, cell=rng.choice(cells), cellarg=multi)
        if sc['designs'][0]['cells'][0].get('refs') and proto['cell'] == cells[0]:
            proto['cellarg'] = rng.random() < 0.5                  # the one top cell need not be named
        if rng.random() < 0.5:
            st.append(dict(proto))
            if rng.random() < 0.7:
                st.append(gen.gds_step(1, dt=rng.choice([0, -10**9])))
            if rng.random() < 0.4:
                st += [gen.spoil(rng) for _ in range(rng.randint(1, 4))]
        for _ in range(rng.choice([1, 1, 2])):
            r = dict(proto)
            r['tools'] = {}
            for t in judge.used_tools(r):
                if rng.random() < 0.5:
                    r['tools'][t] = [gen.outcome(rng, t)]
                elif rng.random() < 0.3:
                    r['tools'][t] = [dict(gen.pipe(rng), chat=gen.chat(rng, big=0.02))]
                    if t in ('FasterCap',):
                        r['tools'][t][0]['iterations'] = rng.choice([1, 2, 5])
            if rng.random() < 0.15 and 'klayout' not in r['tools']:
                r['tools']['klayout'] = [{'mismatch': True}]
            st.append(r)
        if rng.random() < 0.5:
            st.append(dict(proto))
        return sc

    def judge(self, w):
        out = super().judge(w)
        for i, st, ev in self.runs(w):
            out += judge.judge_fatal(w, st, ev, i)
            out += judge.judge_25d(w, st, ev, i)
            out += judge.judge_magic(w, st, ev, i)
            out += judge.judge_options(w, st, ev, i)
            if ev['res']['rc'] == 0:
                out += judge.judge_matrix(w, st, ev, i)
        return out


@prop
class C05(Prop):
    """disk errors never silently damage results"""
    id = 'C05'
    quick = 800

    def generate(self, rng, idx):
        if idx % 2 == 0:                            # one error at each kind of operation on each kind of file
            eng, fault = gen.stratum(rng, idx // 2)
            multi = 'exported' in fault['match'] or rng.random() < 0.1
            sc = gen.base(rng, 2, ('TOP', 'AUX') if multi else ('TOP',))
            st = sc['steps']
            st.append(gen.gds_step(0))
            proto = gen.run(rng, [eng], plain=0.7, cellarg=multi)
            if idx // 2 >= len(gen.STRATA) and rng.random() < 0.7:          # over the files of an earlier run
                st.append(dict(proto))
                st.append(gen.gds_step(1))
            st.append(dict(proto, faults=[fault]))
            st.append(dict(proto))
            return sc
        sc = gen.base(rng, 2)
        st = sc['steps']
        st.append(gen.gds_step(0))
        proto = gen.run(rng, plain=0.7)
        if rng.random() < 0.25:
            st.append(dict(proto))
            if rng.random() < 0.6:
                st.append(gen.gds_step(1))
        for _ in range(rng.choice([1, 1, 2])):
            r = dict(proto)
            if rng.random() < 0.3:
                total = {'2.5D': 40000, 'fastercap': 150000, 'fastcap': 120000, 'magic': 20000}
                r['budget'] = rng.randrange(0, sum(total[e] for e in proto['engines']))
            else:
                r['faults'] = [gen.disk_fault(rng, proto['engines']) for _ in range(rng.choice([1, 1, 1, 2]))]
            st.append(r)
        st.append(dict(proto))
        return sc

    def nontrivial(self, w):
        return any(ev['res'].get('fired') or ev['res'].get('budget_left') == 0 for _, st, ev in self.runs(w))


@prop
class C06(Prop):
    """a tool's output is kept completely, whatever it prints"""
    id = 'C06'
    quick = 420

    def generate(self, rng, idx):
        sc = gen.base(rng, 1)
        st = sc['steps']
        if rng.random() < 0.2:
            st += svg_steps(rng, [dict(gen.pipe(rng), chat=gen.chat(rng),
                                       **(gen.outcome(rng, 'netlistsvg') if rng.random() < 0.3 else {}))])
            return sc
        st.append(gen.gds_step(0))
        r = gen.run(rng, sets=[(['2.5D'], 2), (['fastercap'], 2), (['fastcap'], 2), (['magic'], 3), (['fastercap', 'fastcap'], 1)], plain=0.8)
        for t in judge.used_tools(r):
            s = dict(gen.pipe(rng), chat=gen.chat(rng))
            if rng.random() < 0.25:
                s.update(gen.outcome(rng, t))
            if t in ('FasterCap', 'fastcap') and rng.random() < 0.3:
                s['last'] = rng.choice(['', 'x', 'no newline at the end', '\r', 'end\n\n'])
            if rng.random() < 0.2:
                s['sleep'] = rng.choice([0, 10**6, 3600 * 10**9])
            r['tools'][t] = [s]
        st.append(r)
        return sc

    def judge(self, w):
        out = []
        for i, (st, ev) in enumerate(zip(w.sc['steps'], w.events)):
            if st['op'] != 'run':
                continue
            if st.get('entry', 'kpex') == 'netlist':
                logs = {'netlistsvg': svg_log(w, st)}
                if ev['res']['rc'] in ('hang', 'deadlock', 'died'):
                    out.append(v(ev['res']['rc'], i, f'the run never ends: {ev["res"].get("exc")}'))
                out += svg_judge(w, st, ev, i)
            else:
                logs = judge.tool_logs(w, st)
                out += judge.judge_results(w, st, ev, i)
                out += judge.judge_run_logs(w, st, ev, i)
            out += judge.judge_output(w, st, ev, i, logs)
        return out

    def nontrivial(self, w):
        return w.stats.get('tool_logs', 0) > 0


SVG_NET = '* x\n.subckt {top} A B Y\nR1 A B 1k\nR2 B Y {r}\nC1 A Y 1f\nC2 B 0 {r}f\n.ends {top}\n'


def svg_steps(rng, tools, top='INV', n=1):
    st = []
    for k in range(n):
        st.append({'op': 'file', 'path': f'in/net{k}.spice', 'text': SVG_NET.format(top=top, r=rng.randrange(100, 1000))})
        st.append({'op': 'run', 'entry': 'netlist', 'argv': ['kpex-netlist', 'svg', f'{{R}}/in/net{k}.spice', '--exe', '{R}/bin/netlistsvg',
                                                           '-o', f'{{R}}/out/o{k}.svg'], 'cwd': 'work', 'engines': [], 'cell': top,
                   'out': 'out', 'svg': f'out/o{k}.svg', 'tools': {'netlistsvg': tools}})
        st.insert(0, {'op': 'mkdir', 'path': 'out'})
    return st


def svg_log(w, st):
    return w.path(os.path.join(st.get('cwd', ''), 'netlist_run', st['cell'].lower(), 'netlistsvg_log.txt'))


def svg_judge(w, st, ev, i):
    out = []
    o = judge.outcome_of(st, 'netlistsvg')
    rc = ev['res']['rc']
    if o in judge.FATAL['netlistsvg'] and rc == 0:
        out.append(v('failure_ignored', i, f'netlistsvg failed ({o}), but the run ended successfully'))
    if o == 'ok' and not st.get('faults') and st.get('budget', -1) < 0 and rc != 0:
        out.append(v('failed_without_reason', i, f'nothing went wrong, but the run ended with {rc}: {ev["res"].get("exc")}'))
    if rc == 0:
        want = w.golden_svg(st, i)
        got = ev['svg']
        if got != want:
            out.append(v('wrong_results', i, f'the run succeeded, but its SVG is not that of a fresh run: {judge.diff({"svg": got}, {"svg": want})}'))
        else:
            w.count('results_compared')
    return out


@prop
class C07(Prop):
    """every number derived from a field solver agrees with its last matrix"""
    id = 'C07'
    quick = 420

    def generate(self, rng, idx):
        sc = gen.base(rng, 2, rich=rng.random() < 0.6)
        st = sc['steps']
        st.append(gen.gds_step(0))
        r = gen.run(rng, sets=[(['fastercap'], 4), (['fastcap'], 4), (['fastercap', 'fastcap'], 2)], plain=0.7)
        if rng.random() < 0.3:
            st.append(dict(r))
            if rng.random() < 0.5:
                st.append(gen.gds_step(1))
        r = dict(r, tools={})
        for t in ('FasterCap', 'fastcap'):
            s = dict(gen.pipe(rng), mseed=rng.randrange(1 << 20), matrix=rng.choice(['', '', 'zeros', 'tiny', 'big', 'wide', 'sym']))
            if t == 'FasterCap':
                s['iterations'] = rng.choice([1, 1, 2, 3, 6])
            if rng.random() < 0.3:
                s['outcome'] = rng.choice(['trunc', 'trunc', 'trunc', 'trunc_fail', 'nomatrix', 'fail_after'])
                s['permille'] = rng.choice([rng.randrange(1000), rng.randrange(900, 1000), 999, 998])
            if rng.random() < 0.3:
                s['chat'] = gen.chat(rng, big=0)
            r['tools'][t] = [s]
        st.append(r)
        return sc

    def judge(self, w):
        out = []
        for i, st, ev in self.runs(w):
            out += judge.judge_matrix(w, st, ev, i)
            out += judge.judge_results(w, st, ev, i)
            out += judge.judge_fatal(w, st, ev, i)
        return out

    def nontrivial(self, w):
        return w.stats.get('matrices', 0) > 0


MARK = re.compile(r'@@(\d+)-(\d+)@@')


def marked(rng, r, no):
    """every tool of this run prints lines that no other run prints"""
    r = dict(r, tools={k: [dict(s) for s in x] for k, x in r.get('tools', {}).items()})
    k = 0
    for t in judge.used_tools(r):
        specs = r['tools'].setdefault(t, [{}])
        for s in specs:
            c = []
            for part in sorted(rng.randrange(3) for _ in range(rng.randint(1, 3))):
                c.append([part, 'out', f'@@{no}-{k}@@ some text\n', 1])
                k += 1
            s['chat'] = c
    r['no'] = no
    return r


def all_runs(w):
    """(event index, run, result of its process, position in the process) in order of their end"""
    for i, (st, ev) in enumerate(zip(w.sc['steps'], w.events)):
        for r, sub in [(st, ev)] if st['op'] == 'run' else list(zip(st['runs'], ev['subs'])) if st['op'] == 'par' else []:
            for k, c in enumerate(r.get('chain', []) + [r]):
                yield i, c, sub, k


@prop
class C08(Prop):
    """each run has its own complete log, and keeps the logs of earlier runs"""
    id = 'C08'
    quick = 600

    def generate(self, rng, idx):
        cells = rng.choice([('TOP',), ('TOP', 'AUX')])
        sc = gen.base(rng, 2, cells)
        st = sc['steps']
        st.append(gen.gds_step(0))
        no = 0
        sets = [(['magic'], 4), (['2.5D'], 2), (['2.5D', 'magic'], 1), (['fastcap'], 1)]

        def one(**kw):
            nonlocal no
            r = gen.run(rng, sets=sets, plain=1, cell=rng.choice(cells), cellarg=len(cells) > 1, cache=rng.random() < 0.3, **kw)
            for t in judge.used_tools(r):
                if rng.random() < 0.2:
                    r['tools'][t] = [gen.outcome(rng, t)]
                    if r['tools'][t][0]['outcome'] == 'prompt':
                        r['tools'][t] = [{}]
                elif rng.random() < 0.5:
                    r['tools'][t] = [{'sleep': rng.choice([0, 1000])}]
            if rng.random() < 0.1:
                r['opts'] = ['--log_level', rng.choice(['debug', 'nonsense'])]
            if rng.random() < 0.3:
                r = dict(gen.spelling(rng, r), cellarg=len(cells) > 1)
            no += 1
            return marked(rng, r, no)
        for _ in range(rng.randint(2, 5)):
            k = rng.random()
            if k < 0.15 and len(cells) > 1:
                a, b = one(), one()
                a['cell'], b['cell'] = 'TOP', 'AUX'
                if rng.random() < 0.5:
                    a['pid'] = b['pid'] = 7
                st.append({'op': 'par', 'runs': [a, b], 'sched': {'seed': rng.randrange(1 << 20), 'p': rng.choice([0.05, 0.3]), 'hot': ['kpex']}})
            elif k < 0.3:
                r = one()
                r['chain'] = [one(cwd=r.get('cwd', '')) for _ in range(rng.randint(1, 2))]
                st.append(r)
            elif k < 0.4:
                r = one()
                r['faults'] = [gen.crash(rng, r['engines'])]
                st.append(r)
            else:
                st.append(one())
            k = rng.random()
            if k < 0.3:
                st.append({'op': 'clock', 'ns': rng.choice([-10**9, -3600 * 10**9, 500 * 10**6, 10**9, 10**12, -1200 * 10**6]), 'jump': True})
            elif k < 0.4:
                st.append(gen.gds_step(rng.randrange(2)))
        return sc

    def generate_end(self, w):
        pass

    def judge(self, w):
        out = []
        # what is in the directories at the end
        dirs = {}
        owner_last = {}
        runs = []
        for i, r, sub, k in all_runs(w):
            if r.get('entry', 'kpex') != 'kpex':
                continue
            d = os.path.realpath(w.run_dir(r))
            killed = sub['res']['rc'] == 'killed'
            runs.append((i, r, sub, k, d, killed))
        for d in {x[4] for x in runs}:
            dirs[d] = {}
            if os.path.isdir(d):
                for n in sorted(os.listdir(d)):
                    if n.startswith('kpex') and n.endswith('.log'):
                        with open(os.path.join(d, n), 'rb') as f:
                            dirs[d][n] = f.read().decode('utf-8', 'replace')
        last = {}
        parallel_dirs = set()
        for x in runs:
            last[x[4]] = x
        for i, r, sub, k, d, killed in runs:
            if killed:
                continue
            tools = (sub['res'].get('alltools') or [[]])[k] if k < len(sub['res'].get('alltools') or []) else []
            want = [m.group(0) for t in tools for m in MARK.finditer(t['out'])]
            quiet = 'nonsense' in r.get('opts', ())
            if not want or quiet:
                continue
            w.count('logs_expected', 2)
            for fam in ('kpex_plain', 'kpex'):
                mine = {n: t for n, t in dirs[d].items() if re.fullmatch(fam + r'(_\d{4}-.*\.bak)?\.log', n)}
                have = [n for n, t in mine.items() if any(m.group(1) == str(r['no']) for m in MARK.finditer(t))]
                if not have:
                    out.append(v('log_lost', i, f'no {fam}*.log in {os.path.basename(d)} has the output of run {r["no"]} any more: {sorted(mine)}'))
                    continue
                if len(have) > 1:
                    out.append(v('log_split', i, f'the log of run {r["no"]} is spread over {have}'))
                    continue
                got = [m.group(0) for m in MARK.finditer(mine[have[0]])]
                if got != want:
                    out.append(v('log_mixed', i, f'{have[0]} has {got} instead of {want}'))
                if not sub['res'].get('fired') and sub['res']['rc'] in (0, 1):
                    recs = (sub['res'].get('allrecs') or [])[k:k + 1]
                    w.count('log_messages', sum(len(x) for x in recs))
                    pos = 0
                    for _, msg in (x for x in (recs[0] if recs else []) if x[0] == fam):
                        p = mine[have[0]].find(msg + '\n', pos)
                        if p < 0:
                            out.append(v('log_incomplete', i, f'{have[0]} lacks the message {msg[:80]!r} (or has it out of order)'))
                            break
                        pos = p + len(msg) + 1
                if judge.shows_output(r) and not killed and not sub['res'].get('fired'):
                    out += judge.judge_run_log(w, r, tools, mine[have[0]], 'plain' if fam == 'kpex_plain' else 'formatted', i)
                if last[d][1] is r and have[0] != fam + '.log':
                    out.append(v('log_name', i, f'the log of the last run is {have[0]}'))
        # nobody else's directory
        for i, r, sub, k, d, killed in runs:
            for n, t in dirs[d].items():
                foreign = {m.group(1) for m in MARK.finditer(t)} - {str(x[1]['no']) for x in runs if x[4] == d}
                if foreign:
                    out.append(v('log_foreign', i, f'{n} in {os.path.basename(d)} has the output of runs {sorted(foreign)}'))
        for i, r, sub, k in all_runs(w):
            if sub['res']['rc'] in ('hang', 'deadlock', 'died'):
                out.append(v(sub['res']['rc'], i, str(sub['res'].get('exc'))))
        return out[:5]

    def nontrivial(self, w):
        return w.stats.get('logs_expected', 0) > 2


@prop
class C09(Prop):
    """simultaneous runs do not disturb each other"""
    id = 'C09'
    quick = 500

    def generate(self, rng, idx):
        cells = ('TOP', 'AUX')
        sc = gen.base(rng, 3, cells)
        st = sc['steps']
        st += [gen.gds_step(0), gen.gds_step(1, 'in/b.gds')]
        kind = rng.choice(['cells', 'cache', 'stems', 'mixed', 'cache'])
        sets = [(['2.5D'], 5), (['fastercap'], 2), (['fastcap'], 2), (['magic'], 2), (['2.5D', 'magic'], 1)]
        n = rng.choice([2, 2, 2, 3])
        runs = []
        for i in range(n):
            r = gen.run(rng, sets=sets if kind != 'cache' else [(['2.5D'], 1)], plain=0.8, cell='TOP', cellarg=True)
            if kind == 'cells':
                r['cell'] = cells[i % 2]
                if i > 1:
                    r['gds'] = 'in/b.gds'
            elif kind == 'cache':
                r['cache_dir'] = 'cache'
                r['out'] = f'out{i}'
            elif kind == 'stems':
                r['gds'] = ['in/a.gds', 'in/b.gds', 'in/a.gds'][i]
                r['cell'] = cells[i // 2]
            else:
                r['cell'] = rng.choice(cells)
                r['out'] = f'out{i}'
                r['gds'] = rng.choice(['in/a.gds', 'in/b.gds'])
                if rng.random() < 0.5:
                    r['cache_dir'] = 'cache'
            if rng.random() < 0.15:
                r['faults'] = [gen.crash(rng, r['engines'])]
                if rng.random() < 0.5:
                    r['orphan'] = 'finish'
            elif rng.random() < 0.15:
                t = rng.choice(judge.used_tools(r))
                r['tools'][t] = [gen.outcome(rng, t)]
            elif rng.random() < 0.3:
                r['tools'] = {t: [dict(gen.pipe(rng), sleep=rng.choice([0, 10**9]))] for t in judge.used_tools(r)}
            runs.append(marked(rng, r, i + 1))
        if rng.random() < 0.4:
            for r in runs:
                r['pid'] = 1
        if rng.random() < 0.3 and kind != 'mixed':
            st.append(dict({k: x for k, x in runs[0].items() if k != 'faults'}, tools={}))
            if rng.random() < 0.5:
                st.append(gen.gds_step(2, runs[0]['gds']))
        st.append({'op': 'par', 'runs': runs, 'sched': {'seed': rng.randrange(1 << 30), 'p': rng.choice([0.01, 0.05, 0.2, 0.5]),
                                                        'hot': rng.choice([None, ['lvsdb'], ['kpex'], ['lvsdb', 'mkdir', '.log']])}})
        for r in runs[:rng.randint(1, 2)]:
            st.append(dict({k: x for k, x in r.items() if k not in ('faults', 'orphan')}, tools={}))
        return sc

    def judge(self, w):
        out = super().judge(w)
        for i, (st, ev) in enumerate(zip(w.sc['steps'], w.events)):
            if st['op'] == 'par':
                for r, sub in zip(st['runs'], ev['subs']):
                    out += judge.judge_fatal(w, r, sub, i)
                    if sub['res']['rc'] == 0:
                        out += judge.judge_output(w, r, sub, i, {}) if False else []
        # nobody's output in the other's log
        for i, (st, ev) in enumerate(zip(w.sc['steps'], w.events)):
            if st['op'] != 'par':
                continue
            for r, sub in zip(st['runs'], ev['subs']):
                d = w.run_dir(r)
                if not os.path.isdir(d):
                    continue
                for n in sorted(os.listdir(d)):
                    if not n.endswith('.log') and not n.endswith('_Output.txt'):
                        continue
                    with open(os.path.join(d, n), 'rb') as f:
                        nos = {m.group(1) for m in MARK.finditer(f.read().decode('utf-8', 'replace'))}
                    if nos - {str(r['no'])}:
                        out.append(v('log_foreign', i, f'{n} of run {r["no"]} has the output of run {sorted(nos - {str(r["no"])})}'))
        return out[:5]

    def nontrivial(self, w):
        return w.stats.get('switches', 0) > 5


@prop
class C10(Prop):
    """results depend on nothing but inputs and options"""
    id = 'C10'
    quick = 140
    pair = True

    def generate(self, rng, idx):
        cells = gen.cells(rng)
        sc = gen.base(rng, 2, cells, rich=rng.random() < 0.5, nested=0.3, comb=0.2)
        st = sc['steps']
        fmt = rng.choice(['gds', 'gds', 'gds.gz', 'oas'])
        g = rng.choice(['in/a.', 'in/deep/er/chip.', 'other/x y.', rng.choice(gen.ODD_DIRS), rng.choice(gen.ODD_DIRS)]) + fmt
        st.append(gen.gds_step(0, g, fmt, dt=rng.choice([0, -10**15, 10**12])))
        st.append(gen.gds_step(1, 'in/z.gds'))
        proto = gen.run(rng, gds=g, plain=0.3, cell=rng.choice(cells), cellarg=len(cells) > 1)
        if '2.5D' in proto['engines'] and rng.random() < 0.4:
            proto['opts'] = [o for i, o in enumerate(proto['opts']) if '--mode' not in proto['opts'][max(i - 1, 0):i + 1]] + ['--mode', rng.choice(['R', 'RC', 'RC'])]
        rich = {'rich': 1, 'subcells': rng.choice([0, 2, 3])} if rng.random() < 0.7 else None
        for _ in range(rng.randint(1, 2)):
            r = gen.spelling(rng, proto)
            r['cellarg'] = r.get('cellarg') or len(cells) > 1
            r['out'] = rng.choice(['out', 'res/u/lt', 'in/o', 'o u t', rng.choice(gen.ODD_OUTS), rng.choice(gen.ODD_OUTS)])
            r['pid'] = rng.choice([1, 300, 99999, 4194304])
            r['rng'] = rng.randrange(1 << 20)
            r['cache'] = rng.random() < 0.5
            r['noise'] = rng.choice([[], [], ['--log_level', 'verbose'], ['--threads', '1'], ['--lvs-verbose', 'true'], ['--geo_check', 'true']])
            if '--log_level' in r['noise'] and '--log_level' in r['opts']:
                r['noise'] = []
            if '--geo_check' in r['noise'] and not {'fastcap', 'fastercap'} & set(r['engines']):
                r['noise'] = []
            r['env'] = rng.choice([{}, {'COLUMNS': '40'}, {'COLUMNS': '300', 'TERM': 'dumb'}, {'OMP_NUM_THREADS': '1'}, {'LANG': 'C', 'LC_ALL': 'C'},
                                   {'HOME': '/nonexistent'}, {'TZ': 'Asia/Tokyo'}, {'USER': 'x', 'LOGNAME': 'x'}, {'PDKPATH': '/pdks/sky130B'}, {'PDK': 'sky130B', 'PDKPATH': '/pdks/sky130B', 'PDK_ROOT': '/pdks'}])
            if rng.random() < 0.5:
                r['tools'] = {t: [gen.pipe(rng)] for t in judge.used_tools(r)}
            if rng.random() < 0.5:
                r['chain'] = []
                for _ in range(rng.randint(1, 2)):
                    c = gen.run(rng, gds='in/z.gds', plain=0.3, cell=rng.choice(cells), cellarg=len(cells) > 1, out=rng.choice(['out', 'out9']))
                    if rng.random() < 0.4:
                        t = rng.choice(judge.used_tools(c))
                        c['tools'] = {t: [gen.outcome(rng, t)]}
                    if 'cwd' in r:
                        c['cwd'] = r['cwd']
                    r['chain'].append(c)
            st.append(r)
            if rng.random() < 0.3:
                st.append({'op': 'clock', 'ns': rng.choice([10**15, -10**15, 10**9]), 'jump': True})
        for r in st:
            if r['op'] == 'run' and 'magic' in r['engines'] and rich:
                r['tools'] = dict(r['tools'], magic=[dict((r['tools'].get('magic') or [{}])[0], **rich)])
        return sc

    def judge(self, w):
        out = []
        for i, st, ev in self.runs(w):
            rc = ev['res']['rc']
            if rc != 0:
                out.append(v('failed_without_reason', i, f'nothing went wrong in this run, but it ended with {rc}: {ev["res"].get("exc", "")}'))
                continue
            if not ev['res']['rcs'][-1][2]:
                out.append(v('cwd_changed', i, 'the working directory of the process is another one after the run'))
            d, f = ev['versions'][-1]
            for e in st['engines']:
                single = dict(st, engines=[e])
                if e != 'magic':
                    single.pop('magic_mode', None)
                grc, exc, ref = w.golden(single, d, f)
                if grc != 0:
                    out.append(v('failed_without_reason', i, f'{e} alone fails: {exc}'))
                    continue
                mine = judge.results_only({n: ev['results'].get(n) for n in ref})
                ref = judge.results_only(ref)
                if mine != ref:
                    out.append(v('wrong_results', i, f'{e}: differs from a plain run of this engine: {judge.diff(mine, ref)}'))
                else:
                    w.count('results_compared')
        return out

    def pair_digest(self, w):
        import hashlib
        h = hashlib.sha256()
        for i, st, ev in self.runs(w):
            h.update(str(ev['res']['rc']).encode())
            for n, d in sorted(judge.results_only(ev['results']).items()):
                h.update(n.encode())
                h.update(d if isinstance(d, bytes) else str(d).encode())
        return h.hexdigest()[:20]


def tree(w):
    """digest and time of every file, and every directory, of the world"""
    res = {}
    for d, dirs, files in os.walk(w.root):
        dirs.sort()
        rel = os.path.relpath(d, w.root)
        if rel in ('tooltmp',):
            dirs.clear()
            continue
        res[rel + '/'] = 'dir'
        for n in sorted(files):
            p = os.path.join(d, n)
            try:
                with open(p, 'rb') as f:
                    res[os.path.normpath(os.path.join(rel, n))] = (artifacts.digest(f.read()), os.stat(p).st_mtime_ns)
            except OSError as e:
                res[os.path.normpath(os.path.join(rel, n))] = str(e)
    return res


@prop
class C11(Prop):
    """a run changes nothing but its own files"""
    id = 'C11'
    quick = 900
    want_tree = True

    def generate(self, rng, idx):
        cells = rng.choice([('TOP',), ('TOP', 'AUX')])
        sc = gen.base(rng, 1, cells)
        sc['tree'] = True
        st = sc['steps']
        fmt = rng.choice(['gds', 'gds', 'gds.gz', 'oas'])
        g = rng.choice(['in/a.', 'in/my chip.', "in/o'x.", 'work/w.', 'out/a.', 'in/x.y.', 'in/ünï.']) + fmt
        st.append(gen.gds_step(0, g, fmt, dt=-10**12))
        r = gen.run(rng, gds=g, plain=0.5, cell=rng.choice(cells), cellarg=len(cells) > 1)
        r = gen.spelling(rng, r)
        r['cellarg'] = r.get('cellarg') or len(cells) > 1
        r['out'] = rng.choice(['out', 'out', 'in/o', 'work', 'deep/er/out'])
        if rng.random() < 0.3:
            r['cache_dir'] = rng.choice(['cache', 'in/cache', 'home/.c'])
        if rng.random() < 0.2:
            r['schematic'] = 'in/sch.spice'
            st.append({'op': 'file', 'path': 'in/sch.spice', 'text': f".subckt {r['cell']} VDD VSS\n.ends\n"})
        # files of other people
        for p in rng.sample(['work/kpex.log', 'work/output/notes.txt', 'out/notes.txt', 'out/other__TOP/TOP_k25d_pex_netlist.csv', 'in/notes.csv', 'kpex.log',
                             'out/kpex.log', 'out/a__TOPX/TOPX.lvsdb.gz', 'home/.kpexrc', 'out/.kpex_cache/sky130A/x/TOP.lvsdb.gz', 'tmp/other.tmp',
                             'cache/sky130A/keep.lvsdb.gz', 'in/magic_CC/TOP.ext', 'work/TOP.ext', 'out/kpex_plain_9_0.log', 'work/netlist_run/x.json'], 6):
            st.append({'op': 'file', 'path': p, 'text': 'not yours\n'})
        if rng.random() < 0.3:
            st.append(dict(r))
        for t in judge.used_tools(r):
            if rng.random() < 0.2:
                r['tools'] = dict(r['tools'], **{t: [gen.outcome(rng, t)]})
        if rng.random() < 0.3:
            r['faults'] = [rng.choice([gen.crash, gen.disk_fault])(rng, r['engines'])]
        elif rng.random() < 0.2:
            r['faults'] = [{'at': rng.randrange(gen.length(r['engines'])), 'kind': 'sigint'}]
        st.append(r)
        return sc

    def judge(self, w):
        out = []
        for i, st, ev in self.runs(w):
            rd = os.path.relpath(os.path.realpath(w.run_dir(st)), os.path.realpath(w.root))
            base = os.path.normpath(st.get('out', 'output'))
            cdir = os.path.normpath(st.get('cache_dir') or base + '/.kpex_cache')
            before, after = ev['tree0'], ev['tree1']
            w.count('trees_compared')
            if ev['res']['escapes']:
                t = [l for l in ev['res']['trace'].splitlines() if l.startswith('E ')]
                out.append(v('escape', i, f'the run tried to change something outside of its directories: {t[:3]}'))
            for p in sorted(set(before) | set(after)):
                if before.get(p) == after.get(p):
                    continue
                own = (p + '/').startswith(rd + '/') or (p + '/').startswith(cdir + '/')
                if own and (p + '/').startswith(cdir + '/') and p in before and 'keep' not in p and not p.endswith('/'):
                    # of the cache, only this cell's entry may change
                    ent = os.path.join(cdir, st.get('pdk', 'sky130A'), w.path(st['gds']).lstrip('/'), st['cell'] + '.lvsdb.gz')
                    own = p == ent or (p + '/').startswith(rd + '/')
                elif own and 'keep' in p:
                    own = False
                made = p.endswith('/') and p not in before and (rd + '/').startswith(p) or p.endswith('/') and p not in before and (cdir + '/').startswith(p)
                log = os.path.dirname(p) == base and re.fullmatch(r'kpex(_plain)?_\d+_\d+\.log', os.path.basename(p)) and p not in before
                tmp = p.startswith('tmp/') and p not in before
                work = p == os.path.normpath(st.get('cwd', '.')) + '/' and p not in before
                if not (own or made or log or tmp or work):
                    what = 'created' if p not in before else 'deleted' if p not in after else 'changed'
                    out.append(v('foreign_file', i, f'the run {what} {p}'))
        return out[:5]

    def nontrivial(self, w):
        return w.stats.get('trees_compared', 0) > 0


@prop
class C12(Prop):
    """a marker database that lost categories is repaired completely"""
    id = 'C12'
    quick = 700

    def generate(self, rng, idx):
        if rng.random() < 0.25:
            return self.kpex(rng)
        sc = {'seed': rng.randrange(1 << 30), 't0': 0, 'designs': [], 'steps': []}
        st = sc['steps']
        p = rng.choice(['in/r.rdb', 'in/r.rdb.gz', 'in/a b.rdb.gz', 'in/x.y.rdb'])
        for _ in range(rng.choice([1, 1, 2])):
            st.append({'op': 'rdb', 'path': p, 'seed': rng.randrange(1 << 30), 'share': rng.choice([0, 0.1, 0.3, 0.6, 1])})
            r = {'op': 'run', 'entry': 'repair', 'argv': ['repair', rng.choice(['{R}/' + p, p])], 'rdb': p, 'engines': [], 'tools': {}}
            k = rng.random()
            if k < 0.3:
                kind = rng.choice(['errno', 'persist_errno', 'short_write', 'read_errno', 'crash_before', 'crash_after', 'torn_write'])
                r['faults'] = [{'at': rng.randrange(12) if kind != 'read_errno' else rng.randrange(3), 'kind': kind,
                                'arg': rng.choice(gen.ERRNOS) if 'errno' in kind else rng.choice([0, 300, 900])}]
                if kind == 'read_errno':
                    r['faults'][0].update(arg=5, match=os.path.basename(p))
            elif k < 0.4:
                r['budget'] = rng.randrange(6000)
            st.append(r)
            if k < 0.4 and rng.random() < 0.5:
                st.append({x: y for x, y in r.items() if x not in ('faults', 'budget')})
        return sc

    def kpex(self, rng):
        sc = gen.base(rng, 2, rich=rng.random() < 0.5)
        sc['rdbs'] = True
        st = sc['steps']
        st.append(gen.gds_step(0))
        r = gen.run(rng, sets=[(['2.5D'], 1)], plain=0.3)
        if rng.random() < 0.2:
            st.append(dict(r))
            st.append(gen.gds_step(1))
        r['lose'] = {'seed': rng.randrange(1 << 30), 'share': rng.choice([0, 0.05, 0.2, 0.5, 1])}
        if rng.random() < 0.2:
            r['faults'] = [dict(gen.disk_fault(rng, ['2.5D']), match='repair', at=rng.randrange(8))]
        st.append(r)
        return sc

    def judge(self, w):
        out = []
        whole = None
        for i, (st, ev) in enumerate(zip(w.sc['steps'], w.events)):
            if st['op'] == 'rdb':
                whole = ev
            if st['op'] != 'run':
                continue
            rc = ev['res']['rc']
            upset = bool(ev['res'].get('fired')) or st.get('budget', -1) >= 0
            if rc in ('hang', 'deadlock', 'died'):
                out.append(v(rc, i, str(ev['res'].get('exc'))))
            if st.get('entry') == 'repair':
                w.count('lost', whole['lost'])
                if ev['bytes'] != whole['bytes']:
                    out.append(v('original_changed', i, 'the damaged database itself was changed'))
                if rc != 0:
                    if not upset:
                        out.append(v('failed_without_reason', i, f'nothing went wrong, but the repair ended with {rc}: {ev["res"].get("exc")}'))
                    continue
                if whole['whole'] is None:
                    continue
                got = rdbs.content(ev['repaired']) if isinstance(ev['repaired'], bytes) else None
                out += self.compare(w, i, got, whole['whole'])
            elif st.get('lose'):
                if rc != 0:
                    if not upset:
                        out.append(v('failed_without_reason', i, f'nothing went wrong, but the run ended with {rc}: {ev["res"].get("exc")}'))
                    continue
                grc, _, ref = w.golden(st, *ev['versions'][-1])
                want = rdbs.content(ref['TOP_k25d_pex_report.rdb.gz'].replace(b'<RUN>', os.fsencode(os.path.realpath(w.run_dir(st)))).replace(b'<ROOT>', os.fsencode(w.root)))
                if isinstance(ev['rdb'], dict):
                    if ev['rdb']['items'] != want['items']:
                        out.append(v('items_lost', i, 'the report loads, but its items differ from those of a plain run'))
                else:
                    w.count('lost')
                    if not isinstance(ev['repaired'], dict) and not self.complains(w, st):
                        out.append(v('not_repaired', i, 'the report lost categories, no repaired one can be loaded, and the log does not say so'))
                    elif isinstance(ev['repaired'], dict):
                        out += self.compare(w, i, ev['repaired'], want)
            else:
                out += judge.judge_results(w, st, ev, i)
        return out

    def complains(self, w, st):
        try:
            with open(os.path.join(w.run_dir(st), 'kpex_plain.log'), 'rb') as f:
                return b'Failed to repair' in f.read()
        except OSError:
            return False

    def compare(self, w, i, got, want):
        if got is None:
            return [v('not_repaired', i, 'the repair succeeded, but the repaired database cannot be loaded')]
        w.count('repairs_compared')
        if got['items'] != want['items']:
            d = [x for x in want['items'] if x not in got['items']][:2]
            e = [x for x in got['items'] if x not in want['items']][:2]
            return [v('items_lost', i, f'items of the repaired database differ: {e} instead of {d}')]
        if got['cells'] != want['cells']:
            return [v('cells_lost', i, f"cells {got['cells']} instead of {want['cells']}")]
        bad = [c for c in got['categories'] if c not in want['categories']]
        if bad or len(set(got['categories'])) != len(got['categories']):
            return [v('invented', i, f'the repaired database has categories that the original never had, or has some twice: {bad[:3]}')]
        return []

    def nontrivial(self, w):
        return w.stats.get('lost', 0) > 0


@prop
class C13(Prop):
    """the technology generator writes complete files or fails"""
    id = 'C13'
    quick = 2500

    def generate(self, rng, idx):
        sc = {'seed': rng.randrange(1 << 30), 't0': rng.randrange(10**6), 'designs': [], 'steps': []}
        st = sc['steps']
        out = rng.choice(['out', 'out', 'work/t', 'deep/er/out', 'a b'])
        names = ['sky130A_tech.pb.json', 'ihp_sg13g2_tech.pb.json', 'notes.txt']
        k = rng.random()
        if k < 0.3:
            st.append({'op': 'mkdir', 'path': out})
        elif k < 0.6:
            for n in rng.sample(names, rng.randint(1, 3)):
                st.append({'op': 'file', 'path': f'{out}/{n}', 'text': rng.choice(['', 'x', 'old\n' * 40000])})
        elif k < 0.65:
            st.append({'op': 'file', 'path': out, 'text': 'a file'})
        for _ in range(rng.choice([1, 1, 2, 3])):
            arg = '{R}/' + out
            if rng.random() < 0.3:
                arg += '/'
            if rng.random() < 0.1:
                arg = '{R}/in/../' + out
            r = {'op': 'run', 'entry': 'techgen', 'argv': ['gen_tech_pb', arg], 'out': out, 'engines': [], 'tools': {}}
            if rng.random() < 0.3:
                r['argv'][1] = os.path.relpath(out, 'work') if arg.endswith(out) else arg
                r['cwd'] = 'work'
            k = rng.random()
            if k < 0.75:
                kind = rng.choice(['errno', 'persist_errno', 'short_write', 'short_write', 'crash_before', 'crash_after', 'torn_write'])
                f = {'at': rng.randrange(14), 'kind': kind, 'arg': rng.choice(gen.ERRNOS) if 'errno' in kind else rng.choice([0, 1, 300, 900, 999])}
                if rng.random() < 0.5:
                    f['match'] = rng.choice(['sky130A', 'ihp_', 'write', 'close', 'open', 'mkdir'])
                    f['at'] = rng.randrange(3)
                r['faults'] = [f]
            elif k < 0.9:
                r['budget'] = rng.choice([0, 1, 8191, rng.randrange(200000), rng.randrange(100000)])
            st.append(r)
            if rng.random() < 0.4:
                break
            if rng.random() < 0.4:
                for n in rng.sample(names[:2], rng.randint(1, 2)):
                    st.append({'op': 'spoil', 'path': f'{out}/{n}', 'how': rng.choice(['flip', 'zero', 'cut', 'more']), 'at': rng.randrange(1000)})
        if rng.random() < 0.6:
            st.append({x: y for x, y in r.items() if x not in ('faults', 'budget')})
        return sc

    WANT = {}

    def want(self, w):
        if not self.WANT:
            import tempfile
            import shutil
            from . import world as wd
            sub = tempfile.mkdtemp(prefix='g', dir=os.path.dirname(w.root))
            try:
                g = wd.World({'steps': [{'op': 'run', 'entry': 'techgen', 'argv': ['gen_tech_pb', '{R}/o'], 'out': 'o', 'engines': [], 'tools': {}}]}, sub + '/r')
                ev = g.execute()[-1]
                self.WANT.update(ev['out'], rc=ev['res']['rc'])
            finally:
                shutil.rmtree(sub)
        return self.WANT

    def judge(self, w):
        out = []
        want = dict(self.want(w))
        rc0 = want.pop('rc')
        if rc0 != 0 or sorted(want) != ['ihp_sg13g2_tech.pb.json', 'sky130A_tech.pb.json']:
            return [v('failed_without_reason', 0, f'a plain run ends with {rc0} and writes {sorted(want)}')]
        for n, data in want.items():
            try:
                t = json.loads(data)
            except ValueError as e:
                return [v('no_json', 0, f'{n}: {e}')]
        for i, (st, ev) in enumerate(zip(w.sc['steps'], w.events)):
            if st['op'] != 'run':
                continue
            rc = ev['res']['rc']
            upset = bool(ev['res'].get('fired')) or st.get('budget', -1) >= 0
            isfile = any(s['op'] == 'file' and s['path'] == st['out'] for s in w.sc['steps'])
            if rc == 'hang':
                out.append(v(rc, i, 'the generator never ends'))
            if ev['res']['escapes']:
                out.append(v('escape', i, 'the generator wrote outside of its output directory'))
            if rc == 0:
                w.count('outputs_compared')
                for n, data in want.items():
                    if ev['out'].get(n) != data:
                        out.append(v('damaged', i, f'the generator succeeded, but {n} is ' + ('missing' if n not in ev['out'] else
                                     f'not what it writes otherwise ({len(ev["out"][n])} instead of {len(data)} bytes)')))
                extra = sorted(set(ev['out']) - set(want) - {'notes.txt'})
                if extra:
                    out.append(v('leftover', i, f'unexpected files {extra}'))
            elif not upset and not isfile:
                out.append(v('failed_without_reason', i, f'nothing went wrong, but the generator ended with {rc}'))
            if 'notes.txt' in ev['out'] and not any(ev['out']['notes.txt'] == s.get('text', '').encode() for s in w.sc['steps']):
                out.append(v('foreign_file', i, 'notes.txt was changed'))
        return out

    def nontrivial(self, w):
        return any(ev['res']['rc'] == 'killed' or ev['res'].get('fired') or ev['res'].get('budget_left') == 0 for ev in w.events if 'res' in ev)


@prop
class C14(Prop):
    """MAGIC results are those of this MAGIC run"""
    id = 'C14'
    quick = 550

    def generate(self, rng, idx):
        cells = gen.cells(rng)
        sc = gen.base(rng, 3, cells, rich=rng.random() < 0.5, nested=0.3, comb=0.2)
        st = sc['steps']
        st.append(gen.gds_step(0))
        sets = [(['magic'], 5), (['2.5D', 'magic'], 1)]
        modes = rng.choice([['CC'], ['CC', 'RC'], ['CC', 'RC', 'R']])
        for _ in range(rng.randint(2, 5)):
            r = gen.run(rng, sets=sets, plain=0.6, cell=rng.choice(cells), cellarg=len(cells) > 1)
            r['magic_mode'] = rng.choice(modes)
            if rng.random() < 0.4:
                r['tools'] = {'magic': [gen.outcome(rng, 'magic')]}
            elif rng.random() < 0.3:
                r['tools'] = {'magic': [dict(gen.pipe(rng), devices=rng.random() < 0.5, chat=gen.chat(rng, big=0.02))]}
            if rng.random() < 0.6:
                r['tools'].setdefault('magic', [{}])[0].update(rich=1, subcells=rng.choice([0, 0, 1, 2, 4]))
            if rng.random() < 0.15:
                r['faults'] = [gen.crash(rng, r['engines'])]
                r['orphan'] = 'finish'
            st.append(r)
            if rng.random() < 0.2:
                st.append(self.analyze(rng, r))
            if rng.random() < 0.6:
                st.append(gen.gds_step(rng.randrange(3), dt=rng.choice([0, -10**9])))
        return sc

    def analyze(self, rng, r):
        """the log analyzer alone on the files of a MAGIC run"""
        d = f"out/a__{r['cell']}/magic_{r['magic_mode']}"
        q = {'op': 'run', 'entry': 'magiclog', 'argv': ['magic_log_analyzer', rng.choice(['-m', '--magic_log_dir']), '{R}/' + d], 'magic_dir': d,
             'report': d + '/report.rdb.gz', 'cell': r['cell'], 'engines': [], 'opts': [], 'out': 'out', 'tools': {}, 'cwd': rng.choice(['work', 'in'])}
        if rng.random() < 0.6:
            q['report'] = rng.choice(['out/x.rdb.gz', 'out/y.rdb', 'in/rep.rdb.gz'])
            q['argv'] += [rng.choice(['-o', '--out']), '{R}/' + q['report']]
        if rng.random() < 0.4:
            f = gen.crash(rng, []) if rng.random() < 0.3 else gen.disk_fault(rng, [])
            f['match'] = rng.choice(['.rdb', 'close*.rdb', 'write*.rdb', '.ext'])
            f['at'] = rng.choice([0, 0, 1])
            q['faults'] = [f]
        return q

    def judge(self, w):
        out = super().judge(w)
        for i, st, ev in self.runs(w):
            out += judge.judge_fatal(w, st, ev, i)
            out += judge.judge_magic(w, st, ev, i)
        for i, (st, ev) in enumerate(zip(w.sc['steps'], w.events)):
            if st['op'] == 'run' and st.get('entry') == 'magiclog':
                before, prev = w.sc['steps'][i - 1] if i else {}, w.events[i - 1] if i else {}
                if before.get('op') != 'run' or before.get('cell') != st['cell'] or not st['magic_dir'].endswith('_' + before.get('magic_mode', '?')) \
                        or prev['res']['rc'] != 0:
                    continue
                w.count('logs_analyzed')
                if ev['res']['rc'] == 0:
                    out += judge.magic_report(w, ev['report'], ev['ext'], i)
                elif not st.get('faults'):
                    out.append(v('failed_without_reason', i, f'the results of a successful MAGIC run cannot be analyzed: {ev["res"].get("exc")}'))
        return out


@prop
class C15(Prop):
    """no tool outlives or stalls its run"""
    id = 'C15'
    quick = 750
    LONG = 10**15

    def generate(self, rng, idx):
        sc = gen.base(rng, 1)
        st = sc['steps']
        if rng.random() < 0.12:
            t = dict(gen.pipe(rng), chat=[[p, 'out', f'line {p}\n', rng.choice([1, 300])] for p in range(3)])
            self.upset(rng, t)
            st += svg_steps(rng, [t])
            if 'sigint' not in t:
                st[-1]['faults'] = [{'at': rng.randrange(12), 'kind': 'errno', 'arg': 28, 'match': rng.choice(['netlistsvg_log', 'write', 'open'])}]
            return sc
        st.append(gen.gds_step(0))
        r = gen.run(rng, sets=[(['2.5D'], 3), (['fastercap'], 2), (['fastcap'], 2), (['magic'], 2), (['2.5D', 'fastercap', 'fastcap', 'magic'], 1)], plain=0.9)
        victim = rng.choice(judge.used_tools(r))
        for t in judge.used_tools(r):
            r['tools'][t] = [dict(gen.pipe(rng), chat=[[p, 'out', f'line {p}\n', rng.choice([1, 1, 200, 1300])] for p in range(3)])]
        s = r['tools'][victim][0]
        k = rng.random()
        if k < 0.45:
            self.upset(rng, s)
        elif k < 0.6:                  # it asks for input, which never comes
            s['outcome'] = 'tcl_error' if victim == 'magic' else 'prompt'
        elif k < 0.8:                 # its log cannot be written
            log = {'klayout': '_lvs.log', 'FasterCap': '_FasterCap_Output', 'fastcap': '_FastCap2_Output', 'magic': '_Output.txt'}[victim]
            r['faults'] = [{'at': rng.randrange(4), 'kind': rng.choice(['errno', 'persist_errno']), 'arg': 28, 'match': log}]
            s['sleep2'] = self.LONG
        else:
            r['faults'] = [{'at': rng.randrange(gen.length(r['engines'])), 'kind': 'sigint'}]
            for t in judge.used_tools(r):
                r['tools'][t][0]['sleep2'] = rng.choice([0, 10**9])
        if rng.random() < 0.3:
            s['ignore_term'] = True
        st.append(r)
        if rng.random() < 0.3:
            st.append(dict(r, tools={}, faults=[]))
        return sc

    def upset(self, rng, s):
        """Ctrl-C at some point of the tool's life; the tool would go on for very long"""
        s['sigint'] = rng.choice([0, 1, 2])
        s['sleep2'] = self.LONG

    def judge(self, w):
        out = []
        for i, (st, ev) in enumerate(zip(w.sc['steps'], w.events)):
            if st['op'] != 'run':
                continue
            res = ev['res']
            if res['rc'] in ('hang', 'deadlock', 'died'):
                out.append(v(res['rc'], i, str(res.get('exc'))))
            hit = False
            for t in res.get('tools', ()):
                if t['alive']:
                    out.append(v('orphan', i, f'{t["kind"]} is still running after the run has ended with {res["rc"]}'))
                elif not t['reaped']:
                    out.append(v('zombie', i, f'{t["kind"]} was never waited for'))
                elif t['killed'] is not None:
                    hit = True
            w.count('tools_ended', len(res.get('tools', ())))
            if hit:
                w.count('tools_killed')
            upset = False
            for line in res['trace'].splitlines():
                if line.endswith(' !') or line.startswith('N {"t":"sigint"'):
                    upset = True
                elif upset and line.startswith('N {"t":"sleep"'):
                    ns = json.loads(line[2:])['ns']
                    if ns > self.LONG // 2:
                        out.append(v('stalled', i, f'the run went on waiting for {ns / 1e9:.0f} s after it was interrupted or had failed'))
                        break
            if st.get('entry', 'kpex') == 'kpex' and not upset:
                out += judge.judge_results(w, st, ev, i)
        return out

    def nontrivial(self, w):
        return w.stats.get('tools_killed', 0) > 0


@prop
class C16(Prop):
    """extraction from a saved LVSDB equals the extraction that wrote it"""
    id = 'C16'
    quick = 330

    def generate(self, rng, idx):
        cells = rng.choice([('TOP',), ('TOP', 'AUX')])
        sc = gen.base(rng, 2, cells, rich=rng.random() < 0.5, nested=0.3, comb=0.2)
        st = sc['steps']
        st.append(gen.gds_step(0))
        sets = [(['2.5D'], 4), (['fastercap'], 2), (['fastcap'], 2), (['2.5D', 'fastercap'], 1)]
        p = gen.run(rng, sets=sets, plain=0.5, cell=rng.choice(cells), cellarg=len(cells) > 1)
        if rng.random() < 0.2:
            st.append(dict(p))
        st.append(p)
        name = rng.choice(['in/x.lvsdb.gz', 'in/saved.lvsdb.gz', f"in/{p['cell']}.lvsdb.gz", 'in/a.lvsdb.gz', 'in/a.lvsdb.gz'])
        st.append({'op': 'copy', 'src': f"out/a__{p['cell']}/{p['cell']}.lvsdb.gz", 'path': name})
        k = rng.random()
        if k < 0.3:
            st.append(gen.gds_step(1))
        elif k < 0.4:
            st.append({'op': 'rm', 'path': rng.choice(['in/a.gds', 'out', 'out/.kpex_cache'])})
        if k < 0.3 and rng.random() < 0.6:                # another version has results beside, in the same place
            st.append(dict(p, out=rng.choice([p['out'], p['out'], 'out2'])))
            if rng.random() < 0.5:                        # both are saved, under the same name
                st.append({'op': 'copy', 'src': f"{st[-1]['out']}/a__{p['cell']}/{p['cell']}.lvsdb.gz", 'path': 'in/b/' + os.path.basename(name)})
                both = [(name, 0), ('in/b/' + os.path.basename(name), 1)]
                for q in rng.sample(both, 2):
                    st.append(self.saved(rng, p, *q, False, rng.choice([p['out'], 'out2', 'out2']), sets))
        damaged = rng.random() < 0.3
        if damaged:
            st.append({'op': 'copy', 'src': name, 'path': name.replace('.lvsdb', '_cut.lvsdb'), 'permille': rng.choice([0, 300, 900, 990, 999, rng.randrange(1000)])})
            name = name.replace('.lvsdb', '_cut.lvsdb')
        for _ in range(rng.choice([1, 1, 2])):
            r = self.saved(rng, p, name, 0, damaged, rng.choice(['out', 'out2']), sets)
            if rng.random() < 0.2:
                r['faults'] = [gen.disk_fault(rng, r['engines'])]
            st.append(r)
        return sc

    @staticmethod
    def saved(rng, p, name, design, damaged, out, sets):
        r = {k: x for k, x in p.items() if k not in ('gds', 'cellarg')}
        r = dict(gen.spelling(rng, r), lvsdb=name, out=out, from_design=design, damaged=damaged, tools={})
        r.pop('cellarg', None)
        if rng.random() < 0.5:
            r['engines'] = gen.engines(rng, sets)
            r['opts'] = gen.opts(rng, r['engines'], 0.5)
        return r

    def judge(self, w):
        out = []
        for i, st, ev in self.runs(w):
            if st.get('gds'):
                out += judge.judge_results(w, st, ev, i)
                continue
            if any(t['kind'] == 'klayout' for t in ev['res'].get('tools', ())):
                out.append(v('lvs_called', i, 'LVS was run although a saved LVSDB was given'))
            g = dict(st, gds='in/a.gds')
            g.pop('lvsdb')
            if len(w.designs[0]['cells']) > 1:
                g['cellarg'] = True
            e2 = dict(ev, versions=[(st['from_design'], 'gds')])
            ok = not st.get('faults') and not st['damaged']
            src = [e for s, e in zip(w.sc['steps'][:i], w.events) if s['op'] == 'copy']
            if not all(e.get('copied') for e in src):
                ok = False
            if ok:
                w.count('lvsdb_runs')
            out += judge.judge_results(w, g, e2, i, must_succeed=ok)
        return out

    def nontrivial(self, w):
        return w.stats.get('lvsdb_runs', 0) > 0 or any(s.get('damaged') for s in w.sc['steps'])


@prop
class C17(Prop):
    """a refused run starts nothing and changes nothing"""
    id = 'C17'
    quick = 600
    want_tree = True
    VALIDATED = ['no_engine', 'no_input', 'gds_missing', 'gds_directory', 'cell_unknown', 'cell_missing', 'schematic_missing', 'log_level',
                 'dielectrics', 'magic_lvsdb', 'lvsdb_missing', 'no_klayout', 'magicrc_missing', 'magicrc_none',
                 'gds_missing_lvsdb', 'schematic_directory', 'lvsdb_directory', 'klayout_directory']
    OTHER = ['gds_garbage', 'lvsdb_garbage', 'pdk', 'mode', 'halo', 'flag', 'unknown_option']

    def generate(self, rng, idx):
        multi = rng.random() < 0.6
        cells = gen.cells(rng) if rng.random() < 0.2 else ['TOP', 'AUX']
        cells = cells[:2] if multi else cells[:1]
        multi = len(cells) > 1
        sc = gen.base(rng, 2, cells)
        sc['tree'] = True
        st = sc['steps']
        st.append(gen.gds_step(0))
        st.append({'op': 'file', 'path': 'in/garbage.gds', 'text': rng.choice(['', 'garbage', 'x' * 5000])})
        st.append({'op': 'file', 'path': 'in/some.lvsdb', 'text': '#%lvsdb-klayout\n'})
        proto = gen.run(rng, plain=0.6, cell=rng.choice(cells), cellarg=multi or rng.random() < 0.3)
        if rng.random() < 0.2:
            proto['cache'] = False
        if rng.random() < 0.75:
            st.append(dict(proto))
        st.append({'op': 'copy', 'src': f"out/a__{proto['cell']}/{proto['cell']}.lvsdb.gz", 'path': 'in/real.lvsdb.gz'})
        for _ in range(rng.choice([1, 1, 2])):
            if rng.random() < 0.5:
                st.append(gen.gds_step(rng.randrange(2), dt=rng.choice([0, -10**9])))
            kinds = [k for k in self.VALIDATED + self.OTHER + ['cell_unknown'] * 4 if k != 'cell_missing' or multi]
            k = kinds[idx % len(kinds)] if rng.random() < 0.5 else rng.choice(kinds)
            bad = [k] + ([rng.choice([x for x in self.VALIDATED if x != 'cell_missing'])] if rng.random() < 0.2 else [])
            r = dict(gen.spelling(rng, proto) if rng.random() < 0.3 else proto, bad=bad)
            c = r['cell']
            r['misspelt'] = rng.choice(['NO_SUCH_CELL', c[:-1] or '_', c[:-1] or '_', c[1:] or '_', c + '0', c + '$1', c.swapcase() if c.swapcase() != c else c + '_', '*', c[:1] + '*', ' ' + c, 'CIRCUIT_' + c, c + '.gds'])
            if r['misspelt'] in cells:
                r['misspelt'] = 'NO_SUCH_CELL'
            r['misfilter'] = rng.choice(['none,all', 'all,none', 'all, NONE', 'none,-nild5', 'all,+nild5', 'none,+nild5,-nild6', 'all,-nild5,+nild6'])
            r['mislevel'] = rng.choice(['loud', 'subproc', 'info,debug', '*', 'inf', 'INFOS', '10', '__class__', 'name'])
            r['cellarg'] = r.get('cellarg') or multi
            if rng.random() < 0.2:
                r['engines'] = gen.engines(rng)
                if 'magic' in r['engines']:
                    r['magic_mode'] = rng.choice(['CC', 'RC', 'R'])
            if rng.random() < 0.15:
                r['schematic'] = 'in/none.spice'
            if rng.random() < 0.3:
                r['faults'] = [gen.crash(rng, r['engines']) if rng.random() < 0.4 else gen.disk_fault(rng, r['engines'])]
                r['faults'][0]['at'] = rng.randrange(12)
                r['faults'][0].pop('match', None)
            st.append(r)
            if rng.random() < 0.4:
                st.append(dict(proto))
        if rng.random() < 0.5:
            st.append(dict(proto))
        return sc

    @staticmethod
    def rewritten(p):
        """prepared inputs of a run; its results are judged"""
        return p.endswith(('_dummy_schematic.spice', '_exported.gds.gz'))

    @staticmethod
    def log(p):
        return re.fullmatch(r'kpex(_plain)?(_.*)?\.log', os.path.basename(p))

    def judge(self, w):
        out = []
        for i, st, ev in self.runs(w):
            rc = ev['res']['rc']
            if not st.get('bad'):
                out += judge.judge_results(w, st, ev, i)
                continue
            w.count('refused_runs')
            for b in st['bad']:
                w.count('misuse:' + b)
            if rc == 0:
                out.append(v('accepted', i, f'a run with unusable arguments ({st["bad"]}) ended successfully'))
            if rc in ('hang', 'deadlock', 'died'):
                out.append(v(rc, i, f'the run never ends or died: {ev["res"].get("exc", "")}'))
            for t in ev['res'].get('tools', []):
                out.append(v('tool_started', i, f'a run with unusable arguments ({st["bad"]}) started {t["kind"]}'))
                break
            before, after = ev['tree0'], ev['tree1']
            kept = {d[0] for p, d in after.items() if isinstance(d, tuple)}
            for p in sorted(before):
                if p.endswith('/'):
                    if p not in after:
                        out.append(v('changed', i, f'a run with unusable arguments ({st["bad"]}) deleted {p}'))
                elif self.log(p) and isinstance(before[p], tuple):
                    if before[p][0] not in kept and not ev['res'].get('fired') and rc != 'killed':
                        out.append(v('lost_log', i, f'a run with unusable arguments ({st["bad"]}) lost the log {p}'))
                elif after.get(p) != before[p] and not self.rewritten(p):
                    out.append(v('changed', i, f'a run with unusable arguments ({st["bad"]}) {"changed" if p in after else "deleted"} {p}'))
            for p in sorted(set(after) - set(before)):
                if not p.endswith('/') and not self.log(p) and not self.rewritten(p):
                    out.append(v('created', i, f'a run with unusable arguments ({st["bad"]}) created {p}'))
            if not ev['res'].get('fired') and rc != 'killed' and all(b in self.VALIDATED for b in st['bad']):
                m = re.match(r'(AttributeError|TypeError|KeyError|IndexError|NameError|UnboundLocalError|AssertionError|RecursionError)\b', str(ev['res'].get('exc')))
                if m:
                    out.append(v('crashed', i, f'a run with unusable arguments ({st["bad"]}) ended with {ev["res"]["exc"][:200]} instead of being refused'))
                new = [p for p in after if self.log(p) and 'plain' not in p and after[p] != before.get(p)]
                text = b''.join(artifacts.load(os.path.join(w.root, p)) for p in new if os.path.isfile(os.path.join(w.root, p)))
                if i == max(k for k, _, _ in self.runs(w)) and b'[ERROR]' not in text:
                    out.append(v('no_reason', i, f'a run with unusable arguments ({st["bad"]}) does not say so in its log'))
        return out[:6]

    def nontrivial(self, w):
        return w.stats.get('refused_runs', 0) > 0


@prop
class C18(Prop):
    """every engine works with the options of its run"""
    id = 'C18'
    quick = 400

    SETS = [(['2.5D'], 3), (['fastercap'], 3), (['fastcap'], 2), (['magic'], 3), (['2.5D', 'fastercap'], 1), (['2.5D', 'magic'], 1),
            (['fastercap', 'fastcap'], 1), (['2.5D', 'fastercap', 'fastcap', 'magic'], 1)]

    def one(self, rng, cells, pdk, light, **kw):
        r = gen.run(rng, sets=self.SETS, cell=rng.choice(cells), cellarg=len(cells) > 1, **kw)
        r.pop('pdk', None)
        if pdk != 'sky130A':
            r['pdk'] = pdk
        r['opts'] = gen.wild(rng, r['engines'], pdk, light)
        return r

    def generate(self, rng, idx):
        cells = rng.choice([('TOP',), ('TOP',), ('TOP', 'AUX')])
        light = rng.random() < 0.5
        sc = gen.base(rng, 2, cells, rich=light)
        st = sc['steps']
        st.append(gen.gds_step(0))
        st.append({'op': 'file', 'path': 'in/sch.spice', 'text': '* s\n.SUBCKT TOP A\n.ENDS TOP\n.END\n'})
        pdk = rng.choice(['sky130A', 'sky130A', 'ihp_sg13g2'])
        last = None
        for _ in range(rng.choice([1, 2, 2, 3])):
            r = self.one(rng, cells, pdk, light)
            if last and rng.random() < 0.5:              # the same run, with other options
                r = dict(last, opts=gen.wild(rng, last['engines'], pdk, light))
            last = dict(r, tools={})
            if 'magic' in r['engines'] and rng.random() < 0.5:
                r['magic_mode'] = rng.choice(['CC', 'RC', 'R'])
            k = rng.random()
            if k < 0.25:
                r['chain'] = [self.one(rng, cells, pdk, light, out=rng.choice(['out', 'out9'])) for _ in range(rng.randint(1, 2))]
                for c in r['chain']:
                    if rng.random() < 0.4:
                        t = rng.choice(judge.used_tools(c))
                        c['tools'] = {t: [gen.outcome(rng, t)]}
            elif k < 0.4:
                t = rng.choice(judge.used_tools(r))
                r['tools'] = {t: [gen.outcome(rng, t)]}
            elif k < 0.5 and len(cells) > 1:
                q = self.one(rng, cells, pdk, light, out='out2')
                q['cell'], r['cell'] = cells
                st.append({'op': 'par', 'runs': [r, q], 'sched': {'seed': rng.randrange(1 << 20), 'mode': 'random', 'p': rng.choice([0.05, 0.3])}})
                continue
            elif k < 0.6:
                r['faults'] = [gen.disk_fault(rng, r['engines'])]
            elif k < 0.7:
                r['cache'] = False
            elif k < 0.8 and r['engines'] != ['magic'] and r['cell'] == 'TOP':
                r['schematic'] = 'in/sch.spice'
            st.append(r)
            if rng.random() < 0.3:
                st.append(gen.gds_step(rng.randrange(2)))
        return sc

    def judge(self, w):
        out = super().judge(w)
        for i, st, ev in self.runs(w):
            out += judge.judge_fatal(w, st, ev, i)
            out += judge.judge_25d(w, st, ev, i)
            out += judge.judge_magic(w, st, ev, i)
            out += judge.judge_options(w, st, ev, i)
            if ev['res']['rc'] == 0:
                out += judge.judge_matrix(w, st, ev, i)
        return out

    def nontrivial(self, w):
        return w.stats.get('calls_checked', 0) > 0


@prop
class C19(Prop):
    """a schematic is drawn from the whole current netlist"""
    id = 'C19'
    quick = 1200

    def file(self, rng, st, path, ntops):
        c = nets.gen(rng, ntops)
        st.append({'op': 'file', 'path': path, 'text': nets.text(rng, c), 'circuits': c})
        return c

    def one(self, rng, src, circuits, cwd):
        """a run on one netlist, which shows one of its circuits"""
        tops = nets.tops(circuits)
        r = {'op': 'run', 'entry': 'netlist', 'src': src, 'cwd': cwd, 'engines': [], 'out': 'out', 'opts': [], 'tools': {}}
        r['argv'] = ['kpex-netlist', 'svg', '{R}/' + src, '--exe', '{R}/bin/netlistsvg']
        if len(tops) > 1 or rng.random() < 0.3:
            r['top'] = rng.choice(tops if rng.random() < 0.6 else [c['name'] for c in circuits])
            r['argv'] += ['--cell', r['top'] if rng.random() < 0.7 else r['top'].upper()]
        else:
            r['top'] = tops[0]
        r['cell'] = r['top']
        r['svg'] = os.path.join(cwd, 'netlist_run', r['top'].lower(), os.path.basename(src) + '.svg')
        if rng.random() < 0.7:
            r['svg'] = f'out/{rng.choice(["x", "y", src.split("/")[-1]])}.svg'
            r['argv'] += [rng.choice(['-o', '--output']), '{R}/' + r['svg']]
        return r

    BAD = ['missing', 'empty', 'garbage', 'no_such_cell', 'no_such_cell', 'ambiguous', 'directory', 'no_exe', 'exe_directory']

    def refuse(self, rng, st, r, src):
        r = dict(r, bad=[rng.choice(self.BAD)], argv=list(r['argv']))
        k = r['bad'][0]
        a = r['argv']
        if k in ('empty', 'garbage', 'ambiguous'):
            src = 'in/bad.spice'
            if k == 'ambiguous':
                c = nets.gen(rng, 2)
                st.append({'op': 'file', 'path': src, 'text': nets.text(rng, c)})
            else:
                st.append({'op': 'file', 'path': src, 'text': '' if k == 'empty' else rng.choice(['.subckt A B\nR1 B\n.ends\n', '.include nothing.spice\n'])})
            a[2] = '{R}/' + src
        elif k == 'missing':
            a[2] = '{R}/in/nothing.spice'
        elif k == 'directory':
            a[2] = '{R}/in'
        elif k == 'exe_directory':
            a[a.index('--exe') + 1] = '{R}/in'
        elif k == 'no_exe':
            a[a.index('--exe') + 1] = '{R}/bin/nothing'
        if '--cell' in a:
            del a[a.index('--cell'):a.index('--cell') + 2]
        if k == 'no_such_cell':
            n = r['top']
            known = {x.upper() for x in nets.CIRCUITS}
            a += ['--cell', rng.choice(['NOPE'] + [x for x in (n[:-1], n[1:], n + '0', n + '$1', n[:1] + '*', '*', n + ' ', n.split('.')[0]) if x and x.upper() not in known])]
        return r

    def generate(self, rng, idx):
        sc = {'seed': rng.randrange(1 << 30), 't0': rng.randrange(0, 10**15) * 1000, 'designs': [], 'steps': [{'op': 'mkdir', 'path': 'out'}]}
        st = sc['steps']
        files = {}
        srcs = ['in/net.spice', 'in/deep/net.spice', 'in/b c.cir'][:rng.choice([1, 1, 2, 3])]
        for p in srcs:
            files[p] = self.file(rng, st, p, rng.choice([1, 1, 1, 2, 3]))
        cwds = ['work', 'work2']
        for _ in range(rng.randint(1, 5)):
            src = rng.choice(srcs)
            r = self.one(rng, src, files[src], rng.choice(cwds))
            k = rng.random()
            if k < 0.15:
                r['tools'] = {'netlistsvg': [gen.outcome(rng, 'netlistsvg')]}
            elif k < 0.3:
                r['tools'] = {'netlistsvg': [dict(gen.pipe(rng), chat=gen.chat(rng, big=0.02))]}
            elif k < 0.45:
                f = gen.crash(rng, []) if rng.random() < 0.4 else gen.disk_fault(rng, [])
                f['at'] = rng.randrange(14)
                f.pop('match', None)
                if rng.random() < 0.6:
                    f['match'] = rng.choice(['yosys_netlist.json', 'netlistsvg_log', 'mkdir', 'write*yosys', 'close*yosys'])
                    f['at'] = rng.choice([0, 0, 1])
                r['faults'] = [f]
            elif k < 0.55:
                r = self.refuse(rng, st, r, src)
            elif k < 0.7:
                r['chain'] = []
                for _ in range(rng.randint(1, 2)):
                    q = self.one(rng, *rng.choice(list(files.items())), r['cwd'])
                    if rng.random() < 0.3:
                        q['tools'] = {'netlistsvg': [gen.outcome(rng, 'netlistsvg')]}
                    r['chain'].append(q)
            elif k < 0.8:
                src2 = rng.choice(srcs)
                q = self.one(rng, src2, files[src2], rng.choice(cwds))
                if (q['cwd'] != r['cwd'] or q['top'].lower() != r['top'].lower()) and q['svg'] != r['svg']:
                    st.append({'op': 'par', 'runs': [r, q], 'sched': {'seed': rng.randrange(1 << 20), 'mode': 'random', 'p': rng.choice([0.05, 0.3, 0.6])}})
                    continue
            st.append(r)
            if rng.random() < 0.5:
                src = rng.choice(srcs)
                files[src] = self.file(rng, st, src, rng.choice([1, 1, 2]))
            if rng.random() < 0.15:
                st.append({'op': 'clock', 'ns': rng.choice([-10**14, 10**12]), 'jump': True})
        return sc

    def judge(self, w):
        out = []
        for i, (st, ev) in enumerate(zip(w.sc['steps'], w.events)):
            for r, e in zip(st['runs'], ev['subs']) if st['op'] == 'par' else [(st, ev)] if st['op'] == 'run' else []:
                rc = e['res']['rc']
                if rc in ('hang', 'deadlock', 'died'):
                    out.append(v(rc, i, f'the run never ends: {e["res"].get("exc")}'))
                if r.get('bad'):
                    w.count('refused_runs')
                    if rc == 0:
                        out.append(v('accepted', i, f"there is nothing to draw ({r['bad'][0]}), but the run ended successfully"))
                    if e['res'].get('tools'):
                        out.append(v('tool_started', i, f"there is nothing to draw ({r['bad'][0]}), but netlistsvg was started"))
                    continue
                now = [s for s in w.sc['steps'][:i] if s['op'] == 'file' and s['path'] == r['src']][-1]
                if rc == 0:
                    svg = e['svg']
                    if not isinstance(svg, bytes):
                        out.append(v('missing_output', i, f"the run succeeded, but {r['svg']} is {svg}"))
                        continue
                    bad = nets.differences(svg, now['circuits'], r['top'])
                    if bad:
                        out.append(v('wrong_drawing', i, f"the drawing of {r['top']} of {r['src']}: {'; '.join(bad[:3])}"))
                    if judge.outcome_of(r, 'netlistsvg') in judge.FATAL['netlistsvg']:
                        out.append(v('failure_ignored', i, f"netlistsvg failed ({judge.outcome_of(r, 'netlistsvg')}), but the run ended successfully"))
                    w.count('drawings')
                    w.count('drawn_elements', len(next(c for c in now['circuits'] if c['name'] == r['top'])['elements']))
                elif judge.outcome_of(r, 'netlistsvg') == 'ok' and not r.get('faults'):
                    out.append(v('failed_without_reason', i, f'nothing went wrong, but the run ended with {rc}: {e["res"].get("exc")}'))
        return out[:6]

    def nontrivial(self, w):
        return w.stats.get('drawings', 0) > 0
