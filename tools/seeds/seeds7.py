SEEDS = {}
def seed(i, prop, edits, demo, needs, breaks):
    SEEDS[i] = dict(prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks)

R = 'pytermor/render.py'
PRE = r"""
from pytermor.render import *
from pytermor.render import RendererManager, SgrRenderer, NoOpRenderer, DebugRenderer, Text, Style
class Out:
    def __init__(self, tty):
        self.tty = tty
    def isatty(self):
        return self.tty
    def write(self, s):
        return len(s)
    def flush(self):
        pass
def tty(on):
    global so
    so = sys.stdout
    sys.stdout = Out(on)
def back():
    sys.stdout = so
"""
seed('p17-compat-order', 'P17', [(R, """            if cls._compatibility_16_colors:
                return ColorIndexed16.find_closest(hex_value).to_sgr(bg=bg)
            if cls._compatibility_256_colors:
                return ColorIndexed256.find_closest(hex_value).to_sgr(bg=bg)
            return color.to_sgr(bg=bg)

        elif""", """            if cls._compatibility_256_colors:
                return ColorIndexed256.find_closest(hex_value).to_sgr(bg=bg)
            if cls._compatibility_16_colors:
                return ColorIndexed16.find_closest(hex_value).to_sgr(bg=bg)
            return color.to_sgr(bg=bg)

        elif""")], PRE + r"""
SgrRenderer.set_up(True, True, True)
r = SgrRenderer.render('x', Style(fg=0x0a64ff))
expect('38;5' not in r and '38;2' not in r and r != 'x', f'16 colors take precedence: {r!r}')
""", 'both compatibility settings at once, RGB color', '256-color sequences are printed on a terminal with 16 colors')

seed('p17-sticky-compat', 'P17', [(R, """        cls._compatibility_256_colors = compatibility_256_colors
        cls._compatibility_16_colors = compatibility_16_colors
""", """        if force_styles is not False:
            cls._compatibility_256_colors = compatibility_256_colors
            cls._compatibility_16_colors = compatibility_16_colors
""")], PRE + r"""
SgrRenderer.set_up(True, compatibility_16_colors=True)
SgrRenderer.set_up(False)
tty(True)
r = SgrRenderer.render('x', Style(fg=0x0a64ff))
back()
expect(r == '\x1b[38;2;10;100;255mx\x1b[39m', f'settings are replaced: {r!r}')
""", 'a set-up with the automatic mode after one with forced styles and few colors', 'compatibility settings of the earlier set-up stay')

seed('p17-tty-at-setup', 'P17', [(R, "        cls._force_styles = force_styles\n", "        cls._force_styles = True if force_styles is False and sys.stdout.isatty() else force_styles\n")], PRE + r"""
tty(True)
SgrRenderer.set_up()
a = SgrRenderer.render('x', Style(bold=True))
sys.stdout.tty = False
b = SgrRenderer.render('x', Style(bold=True))
back()
expect(a == '\x1b[1mx\x1b[22m', f'on a terminal: {a!r}')
expect(b == 'x', f'output is redirected after the set-up: {b!r}')
""", 'a set-up on a terminal and an output redirected later', 'text is formatted although the output is no terminal')

seed('p17-default-kept', 'P17', [(R, "        cls._default = default_renderer or SgrRenderer\n", "        cls._default = default_renderer or cls._default or SgrRenderer\n")], PRE + r"""
SgrRenderer.set_up(True)
RendererManager.set_up(NoOpRenderer)
a = Text('x', Style(bold=True)).render()
RendererManager.set_up()
b = Text('x', Style(bold=True)).render()
expect(a == 'x' and b == '\x1b[1mx\x1b[22m', f'default renderer is restored: {a!r} {b!r}')
""", 'a reset of the default renderer after another one was set', 'the other renderer stays in use')

seed('p17-cached-text', 'P17', [(R, """        return ''.join(run._render_using(renderer) for run in self._runs)
""", """        key = (renderer, len(self._runs))
        if self.__dict__.get('_cached', (None,))[0] != key:
            self._cached = key, ''.join(run._render_using(renderer) for run in self._runs)
        return self._cached[1]
""")], PRE + r"""
t = Text('x', Style(bold=True))
SgrRenderer.set_up(True)
a = t.render()
SgrRenderer.set_up(None)
b = t.render()
t2 = Text('a')
t2.append('b')
c = t2.render()
expect(a == '\x1b[1mx\x1b[22m' and b == 'x' and c == 'ab', f'settings of the moment: {a!r} {b!r} {c!r}')
""", 'the same text rendered before and after a change of the settings', 'the earlier result is printed again')
