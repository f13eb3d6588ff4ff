"""A simulated window system for matplotlib's Agg canvas.

The figure, the axes, the artists and the animation object are the real ones;
the event loop behind plt.show, the timers and the window are simulated.
spec: {'events': [...], 'tail': n}.  Events: timer, draw, resize, burst, idle,
close.  Impossible events (a timer tick while no timer runs) are skipped.
When the list is used up the loop delivers timer ticks until no timer is
running any more, then the user closes the window.
"""


class Gui:
    def __init__(self, rt, spec):
        self.rt = rt
        self.events = list(spec.get('events', ()))
        self.timers = []
        self.delivered = {}
        self.shows = 0
        self.closed_early = False

    def summary(self):
        return dict(delivered=self.delivered, shows=self.shows,
                    closed_early=self.closed_early)

    def count(self, what):
        self.delivered[what] = self.delivered.get(what, 0) + 1


def install(rt, spec):
    import matplotlib
    import matplotlib.backend_bases as bb
    import matplotlib.pyplot as plt
    from matplotlib._pylab_helpers import Gcf
    g = Gui(rt, spec)

    class SimTimer(bb.TimerBase):
        def __init__(self, *a, **k):
            self.running = False
            super().__init__(*a, **k)
            g.timers.append(self)

        def _timer_start(self):
            self.running = True

        def _timer_stop(self):
            self.running = False

        def __del__(self):
            pass

    def new_timer(self, interval=None, callbacks=None):
        return SimTimer(interval=interval, callbacks=callbacks)
    bb.FigureCanvasBase.new_timer = new_timer
    bb.FigureCanvasBase._timer_cls = SimTimer

    def running():
        return [t for t in g.timers if t.running]

    def tick():
        r = running()
        if not r:
            return False
        t = r[0] if len(r) == 1 else rt.rng.choice(r)
        g.count('timer')
        if t.single_shot:
            t.running = False
        t._on_timer()
        return True

    def show(*a, **k):
        g.shows += 1
        figs = Gcf.get_all_fig_managers()
        if not figs:
            return
        for m in figs:
            m.canvas.draw()             # the window appears
            g.count('draw')
        steps = 0
        while Gcf.get_all_fig_managers():
            steps += 1
            if steps > 20000:
                rt.die('budget')
            m = Gcf.get_all_fig_managers()[0]
            if g.events and g.shows == 1:
                e = g.events.pop(0)
            else:
                e = 'timer' if running() else 'close'
            rt.ev('gui', e)
            if e == 'timer':
                tick()
            elif e == 'burst':
                for _ in range(3):
                    tick()
            elif e == 'draw':
                m.canvas.draw()
                g.count('draw')
            elif e == 'idle':
                m.canvas.draw_idle()
                g.count('idle')
            elif e == 'resize':
                w, h = m.canvas.figure.get_size_inches()
                f = rt.rng.choice([0.7, 1.0, 1.3])
                m.canvas.figure.set_size_inches(max(2, w * f), max(2, h * f),
                                                forward=False)
                bb.ResizeEvent('resize_event', m.canvas)._process()
                m.canvas.draw_idle()
                g.count('resize')
            elif e == 'motion':
                bb.MouseEvent('motion_notify_event', m.canvas, 100, 120)._process()
                g.count('motion')
            elif e == 'key':
                bb.KeyEvent('key_press_event', m.canvas, 'x')._process()
                g.count('key')
            elif e == 'close':
                if running():
                    g.closed_early = True
                bb.CloseEvent('close_event', m.canvas)._process()
                Gcf.destroy(m)
                g.count('close')
                for t in g.timers:      # the toolkit kills the window's timers
                    t.running = False
    plt.show = show

    def pause(interval):
        for m in Gcf.get_all_fig_managers():
            m.canvas.draw_idle()
        rt.ev('gui', 'pause')
    plt.pause = pause
    return g
