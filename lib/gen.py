"""Generators of worlds and histories."""
import random
import model as M
import world as W

PAGE = 4096


def make_apps(w, rng, n, shared=4, big=1, odd=False, names=None, most=None):
    """n applications with ranges of their own and of shared libraries; all ranges of a file are
    apart from each other, so that a request tells which one it is for"""
    libs = []
    for i in range(shared):
        p = '/usr/lib/lib%d.so' % i
        w.mkfile(p)
        libs.append((p, PAGE * rng.randint(0, 3) * 64, PAGE * rng.randint(1, 200 * big)))
    apps = []
    for i in range(n):
        p = names[i] if names else '/usr/bin/app%02d' % i
        w.mkfile(p)
        maps = [(p, 0, PAGE * rng.randint(1, 100 * big))]
        if rng.random() < .5:
            maps.append((p, PAGE * 100 * big * 2, PAGE * rng.randint(1, 50 * big)))
        q = '/usr/lib/private%02d.so' % i
        w.mkfile(q)
        maps.append((q, PAGE * rng.randint(0, 9), PAGE * rng.randint(1, 300 * big) + (rng.randint(0, 1) and odd) * 77))
        for l in rng.sample(libs, rng.randint(0, min(len(libs), most) if most else len(libs))):
            maps.append(l)
        if rng.random() < .3:
            maps.append(('[heap]', 0, PAGE * 50))
        if rng.random() < .3:
            maps.append(('', 0, PAGE * 50))
        rng.shuffle(maps)
        apps.append(M.App(p, maps))
    return apps


class Hist:
    """random history of starts and stops; at most one application never seen before per scan
    when exact is set, as the order in which several are registered is open"""

    def __init__(self, seg, rng, apps, exact=True, maxnew=1):
        self.seg, self.rng, self.apps, self.exact = seg, rng, apps, exact
        self.pid = 100
        self.maxnew = maxnew

    def free_pid(self):
        r = self.rng
        while True:
            p = r.choice([r.randint(1, 400), r.randint(1, 400), r.randint(1000, 99999), r.randint(1000, 32767), r.randint(100000, 4194303), 1])
            if p != 4242 and p not in self.seg.w.procs and p not in getattr(self.seg, 'used_pids', set()):
                return p

    def unknown(self, app):
        return app.exe not in self.seg.m.exes

    def trim(self):
        """before the start: let at most maxnew applications that are not known be running"""
        seen = set()
        for pid, app in sorted(self.seg.w.procs.items()):
            if app.maps and self.unknown(app) and app.exe not in seen:
                if len(seen) >= self.maxnew:
                    self.seg.kill(pid)
                    continue
                seen.add(app.exe)

    def alive(self, app):
        return [p for p, a in self.seg.w.procs.items() if a is app]

    def step(self, p_start=.4, p_stop=.35, p_multi=.15):
        """some starts and stops now"""
        seg, r = self.seg, self.rng
        pend = {a.exe for a in seg.w.procs.values() if a.maps and self.unknown(a)}   # those without mappings are never recorded
        for app in r.sample(self.apps, len(self.apps)):
            al = self.alive(app)
            if al and r.random() < p_stop:
                for p in al if r.random() < .7 else al[:1]:
                    seg.kill(p)
            elif not al and r.random() < p_start:
                if self.unknown(app):
                    if self.exact and len(pend) >= self.maxnew:
                        continue
                    pend.add(app.exe)
                seg.launch(self.free_pid(), app)
            elif al and r.random() < p_multi:
                seg.launch(self.free_pid(), app)
