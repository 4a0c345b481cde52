"""What every check explores: harness cases, symbolic inputs and bounds."""

def X(text, n):
    return ['x', text, n]


ANY1 = ['*']
ANY2 = ['*', '*']
ANY3 = ['*', '*', '*']
T1 = [['t']]
T2 = [['t'], ['t']]
T3 = [['t'], ['t'], ['t']]
S2 = [['ts'], ['ts']]
S3 = [['ts'], ['ts'], ['ts']]
S4 = [['ts'], ['ts'], ['ts'], ['ts']]
HI = ['r', 0x80, 0xff]
H3 = [HI, HI, HI]
H4 = [HI, HI, HI, HI]
F4 = [['r', 0xef, 0xf5], HI, ['r', 0x7f, 0x90, 0xbf, 0xc2], ['r', 0x80, 0xc1]]
DIG = ['r', 0x30, 0x39]
PRM = ['r', 0x30, 0x3f]
SGRP = ['\x1b[', ['n', PRM, 0, 3], 'm']
SGRP2 = ['\x1b[', ['n', PRM, 0, 2], 'm']
NUM = ['alt', ['1'], ['2'], ['7'], ['31'], ['38'], ['48'], ['5'], ['53'], ['9', ['r', 0x30, 0x37]], ['107'], ['0'], ['>4'], ['4:3'], ['256']]
SGRW = ['\x1b[', NUM, ['n', ['alt', [';'], [';', NUM]], 0, 1], 'm']
ESCQ = ['\x1b', ['n', ['r', 0x20, 0x7f], 0, 3]]
SUBC = ['ws', 'ctrl', 'print', 'esc', 'utf8', 'bin']
IGN1 = {'one': [[], ['ws'], ['ctrl'], ['print'], ['esc'], ['utf8'], ['bin']]}


def k(fn, shape, cfg=None, **kw):
    return {'mod': 'kol', 'fn': fn, 'args': dict(shape=shape, cfg=cfg or {}, **kw)}


def h(mod, fn, **kw):
    return {'mod': mod, 'fn': fn, 'args': kw}


PLAN = {}
# a bit of everything
LONG = X('ab \x1b[1;31mc\xc3\xa9\x1b[0m\t\x00\xff\x1b(B\xe2\x82\xac\n', 9)

PLAN['K01'] = dict(
    quick=[k('k01', ANY2, {'w': {'int': [1, 3]}}), k('k01', S2, {'w': {'int': [1, 4]}, 'f': {'one': [1, 3]}}),
           k('k01', T2, {'w': 3, 'decode': True, 'offsets': False, 'ignore': {'one': [[], ['esc'], ['ws', 'ctrl']]}}),
           k('k01', [['rep', ['r', 0x61, 0x62], 0, 40], '\n'], {'w': {'int': [15, 17]}}),
           k('k01', [X('x', 4094), ['ts'], 'yz'], {'w': 16}), k('k01', [LONG, ['ts'], LONG], {'w': {'one': [16, 31]}, 'decode': True, 'f': {'one': [None, 100]}}),
           k('k01', [X('x', 65534), ['r', 0x7e, 0x81], 'yzyz'], {'w': {'one': [16, 400]}})],
    thorough=[k('k01', ANY3, {'w': 2}), k('k01', ANY3, {'w': 4, 'decode': True, 'f': 2}),
              k('k01', S3, {'w': {'int': [1, 5]}, 'f': {'int': [1, 4]}})])
PLAN['K02'] = dict(
    quick=[k('k02', ANY2, {'w': {'int': [1, 3]}, 'offsets': 'flag'}),
           k('k02', S2, {'w': {'int': [1, 6]}, 'decode': 'flag', 'offsets': 'flag', 'decimal': False}),
           k('k02', [['rep', ['r', 0x61, 0x62], 0, 40]], {'w': {'int': [7, 9]}, 'decimal': 'flag', 'f': {'one': [None, 16]}}),
           k('k02', H3, {'w': {'one': [2, 3]}, 'decode': True}), k('k02', F4, {'w': {'one': [3]}, 'decode': True}),
           k('k02', [X('x', 65534), ['r', 0x7e, 0x7f], 'yzyz'], {'w': 16, 'decimal': 'flag'}),
           k('k02', [LONG, ['ts'], LONG], {'w': {'one': [16, 33]}, 'decode': 'flag'})],
    thorough=[k('k02', ANY3, {'w': 2, 'decode': True}), k('k02', ANY3, {'w': 3, 'offsets': False}), k('k02', S3, {'w': {'int': [1, 9]}, 'decode': 'flag'}),
              k('k02', H4, {'w': {'one': [2, 5]}, 'decode': True}), k('k02', T2, {'w': {'int': [1, 7]}, 'decode': 'flag', 'f': {'one': [1, 2, 3]}}),
              k('k02', [['rep', ['r', 0x61, 0x62], 0, 140]], {'w': {'int': [10, 40]}, 'decimal': 'flag'})])
PLAN['K03'] = dict(
    quick=[h('kol', 'k03', digits=d, decimal=dec) for d in (4, 9, 12) for dec in (False, True)],
    thorough=[h('kol', 'k03', digits=d, decimal=dec) for d in (1, 2, 3, 5, 6, 7, 8, 10, 11, 14, 16, 19, 24, 32) for dec in (False, True)])
PLAN['K04'] = dict(
    quick=[k('k04', ANY2, {'mode': 't', 'ln': False, 'ignore': IGN1}),
           k('k04', H3, {'mode': 't', 'ln': False, 'ignore': {'one': [['utf8'], ['bin']]}}),
           k('k04', F4, {'mode': 't', 'ln': False, 'ignore': {'one': [['utf8'], ['bin']]}}),
           k('k04', ESCQ, {'mode': 't', 'ln': False, 'ignore': {'one': [['esc'], ['ctrl']]}}),
           k('k04', T2, {'mode': 'b', 'w': 12, 'ignore': {'one': [['esc'], ['utf8'], ['ws', 'bin']]}, 'decode': 'flag'})],
    thorough=[k('k04', ANY3, {'mode': 't', 'ln': False, 'ignore': {'one': [['ws', 'print'], ['ctrl', 'bin'], ['esc', 'utf8']]}}),
              k('k04', H4, {'mode': 't', 'ln': False, 'ignore': {'one': [['utf8'], ['bin']]}}), k('k04', S3, {'mode': 't', 'ln': False, 'ignore': {'sub': ['esc', 'ctrl', 'utf8']}}),
              k('k04', S3, {'mode': 'b', 'w': 12, 'ignore': {'sub': ['ws', 'print', 'bin']}}), k('k04', ['\x1b', ['n', ['r', 0x20, 0x7f], 4, 4]], {'mode': 't', 'ln': False, 'ignore': ['esc']}),
              k('k04', T2, {'mode': 't', 'ln': False, 'ignore': {'sub': SUBC}}), k('k04', ANY2, {'mode': 'b', 'w': 3, 'ignore': {'sub': SUBC}, 'decode': 'flag'})])
PLAN['K05'] = dict(
    quick=[k('k05', ANY2, {'mode': 't', 'ln': False}), k('k05', ANY2, {'mode': 'b', 'w': 4}),
           k('k05', H3, {'mode': 't', 'ln': False}), k('k05', F4, {'mode': 't', 'ln': False}),
           k('k05', ESCQ, {'mode': 't', 'ln': False}), k('k05', ESCQ, {'mode': 'b', 'w': 6}),
           k('k05', T2, {'mode': 't', 'ln': False}), k('k05', T2, {'mode': 'b', 'w': 5}),
           k('k05', [X('x', 4094), ['ts'], 'yz'], {'mode': 't', 'ln': False}), k('k05', [LONG, '*', LONG], {'mode': 't', 'ln': False, 'f': {'one': [None, 77]}})],
    thorough=[k('k05', ANY3, {'mode': 't', 'ln': False}), k('k05', ANY3, {'mode': 'b', 'w': 6}), k('k05', H4, {'mode': 't', 'ln': False}), k('k05', H4, {'mode': 'b', 'w': 6, 'decode': True}),
              k('k05', T3, {'mode': 't', 'ln': False}), k('k05', S4, {'mode': 'b', 'w': 4, 'f': 2}), k('k05', ['\x1b', ['n', ['r', 0x20, 0x7f], 4, 4]], {'mode': 't', 'ln': False}),
              k('k05', [X('x', 4094), ['t'], ['ts']], {'mode': 't', 'ln': False})])
PLAN['K06'] = dict(
    quick=[k('k06', ANY2, {'ln': 'flag', 'f': {'one': [None, 1]}}), k('k06', S2, {'ln': True, 'f': {'one': [None, 1, 2]}}),
           k('k06', [['n', ['r', 0x0a, 0x0a, 0x61, 0x61], 5, 7]], {'ln': True, 'f': {'one': [None, 3]}}),
           k('k06', [['rep', ['r', 0x0a, 0x0a], 0, 120], 'x'], {'ln': True}),
           k('k06', [X('a\n', 996), ['n', ['r', 0x0a, 0x0a, 0x62, 0x62], 4, 4]], {'ln': True, 'f': 60}), k('k06', [LONG, '*', X('x ', 150), LONG], {'ln': True, 'f': {'one': [None, 50]}}),
           k('k06', [['rep', [['r', 0x20, 0x21]][0], 250, 260], '\n', 'x'], {'ln': True})],
    thorough=[k('k06', ANY3, {'ln': True}), k('k06', ANY3, {'ln': 'flag', 'f': {'one': [1, 2]}}), k('k06', S4, {'ln': True, 'f': {'one': [None, 1]}}),
              k('k06', [['n', ['r', 0x0a, 0x0a, 0x61, 0x61], 10, 10]], {'ln': True, 'f': {'one': [None, 1, 4]}}), k('k06', T3, {'ln': True}),
              k('k06', [['rep', ['r', 0x0a, 0x0a], 900, 1020], 'x'], {'ln': True}), k('k06', [['rep', ['r', 0x0a, 0x0a], 9995, 10002], 'x'], {'ln': True})])
PLAN['K07'] = dict(
    quick=[k('k07', ANY2, {'mode': 't', 'f': 1, 'ln': True}), k('k07', ANY2, {'mode': 'b', 'f': 1, 'w': 3}),
           k('k07', S2, {'mode': 't', 'f': {'int': [1, 4]}, 'm': {'one': [0, 2]}}),
           k('k07', H3, {'mode': 't', 'f': {'int': [1, 2]}}), k('k07', F4, {'mode': 't', 'f': {'int': [1, 3]}}), k('k07', ESCQ, {'mode': 't', 'f': {'int': [1, 4]}}),
           k('k07', ESCQ, {'mode': 'b', 'w': 3, 'f': {'int': [1, 4]}}),
           k('k07', S2, {'mode': 't', 'plan': {'plan': [[1, 3], [1, 3], [1, 2]]}}),
           k('k07', [X('xyzt', 1023), ['n', ['r', 0x61, 0x61], 0, 3], ['ts'], 'yz'], {'mode': 't'}, ref=9000), k('k07', [X('x ', 150), ['ts'], X('y ', 150), '\n'], {'mode': 't', 'f': {'one': [50, 256]}, 'ln': True}, ref=900),
           k('k07', [LONG, ['ts'], LONG], {'mode': {'one': ['t', 'b']}, 'w': 7, 'f': {'one': [64, 200]}})],
    thorough=[k('k07', ANY3, {'mode': 't', 'f': {'int': [1, 2]}, 'ln': True}), k('k07', ANY3, {'mode': 'b', 'f': {'int': [1, 2]}, 'w': 2}), k('k07', S3, {'mode': 't', 'f': {'int': [1, 6]}, 'm': {'one': [0, 1, 2]}}),
              k('k07', S3, {'mode': 'b', 'w': {'one': [3, 16]}, 'f': {'int': [1, 6]}, 'decode': 'flag'}), k('k07', H4, {'mode': 't', 'f': {'int': [1, 3]}}), k('k07', T2, {'mode': {'one': ['t', 'b']}, 'w': 3, 'm': 1, 'f': {'int': [1, 7]}}),
              k('k07', S3, {'mode': {'one': ['t', 'b']}, 'w': 4, 'plan': {'plan': [[1, 4], [1, 4], [1, 3]]}}),
              k('k07', [X('xyzt', 1023), ['n', ['r', 0x61, 0x61], 0, 4], ['t'], 'yz'], {'mode': {'one': ['t', 'b']}, 'w': 16}, ref=9000)])
PLAN['K08'] = dict(
    quick=[k('k08', ANY2, {'mode': 't', 'B': {'int': [0, 3]}}), k('k08', S2, {'mode': 'b', 'w': 3, 'B': {'int': [0, 5]}, 'f': {'one': [None, 2]}}),
           k('k08', [['n', ['r', 0x0a, 0x0a, 0x61, 0x61], 0, 4]], {'mode': 't', 'L': {'int': [0, 4]}, 'f': {'one': [None, 1, 2]}, 'B': {'one': [None, 2, 3]}}),
           k('k08', S2, {'mode': 't', 'L': {'int': [0, 2]}, 'f': {'one': [None, 1]}}),
           k('k08', [['n', ['r', 0x0a, 0x0a, 0x61, 0x61], 0, 4]], {'mode': 'b', 'w': 2, 'L': {'int': [0, 4]}, 'f': {'one': [None, 1]}}),
           k('k08', [X('x', 5000)], {'mode': 'b', 'w': 16, 'B': {'int': [4093, 4100]}}), k('k08', [X('x' * 63 + '\n', 80)], {'mode': 't', 'L': {'int': [62, 67]}}),
           k('k08', [LONG, '*', LONG], {'mode': 't', 'L': {'one': [9, 10, 11, 18]}, 'B': {'one': [None, 400]}, 'f': {'one': [None, 100]}})],
    thorough=[k('k08', ANY3, {'mode': 't', 'B': {'int': [0, 4]}}), k('k08', ANY3, {'mode': 'b', 'w': 2, 'B': {'int': [1, 3]}, 'f': 1}), k('k08', [['n', ['r', 0x0a, 0x0a, 0x61, 0x61], 7, 7]], {'mode': 't', 'L': {'int': [0, 8]}, 'f': {'one': [None, 1, 3]}}),
              k('k08', S3, {'mode': 't', 'L': {'int': [0, 3]}, 'B': {'int': [0, 9]}}), k('k08', S3, {'mode': 'b', 'w': 4, 'L': {'int': [0, 3]}, 'f': {'one': [None, 1, 2]}}),
              k('k08', T2, {'mode': {'one': ['t', 'b']}, 'w': 4, 'B': {'int': [1, 9]}, 'f': {'one': [1, 3]}}), k('k08', [['n', ['r', 0x0a, 0x0a, 0x61, 0x61], 5, 5]], {'mode': {'one': ['t', 'b']}, 'w': 2, 'L': {'int': [1, 5]}, 'B': {'int': [1, 5]}, 'f': {'one': [None, 2]}})])
ALLC = {'mode': {'one': ['t', 'b']}, 'D': {'one': [0, 2]}, 'm': {'one': [0, 2]}, 'decode': 'flag', 'color': 'flag'}
PLAN['K09'] = dict(
    quick=[k('k09', ANY1, dict(ALLC, D={'one': [0, 4]}, m={'one': [1, 2]}, f={'one': [None, 1]}, focus={'one': [[], ['ctrl', 'print', 'utf8', 'bin']]}, ignore={'one': [[], ['ws', 'esc']]}, sep='flag')),
           k('k09', ANY2, {'mode': 't', 'm': {'one': [0, 1, 2]}}), k('k09', ANY2, {'mode': 'b'}), k('k09', S2, ALLC), k('k09', SGRP, {'mode': {'one': ['t', 'b']}, 'm': {'one': [0, 1]}}), k('k09', SGRP2, {'mode': {'one': ['t', 'b']}, 'm': {'one': [1, 2]}, 'color': True}), k('k09', SGRW, {'mode': 't', 'm': 1, 'color': True}),
           k('k09', ESCQ, {'mode': {'one': ['t', 'b']}, 'm': {'one': [0, 2]}}),
           k('k09', [LONG, '*', LONG], {'mode': {'one': ['t', 'b']}, 'm': {'one': [0, 1, 2]}, 'color': True}), k('k09', [X('ab', 3000), '*', '\x1b[', X('1;', 500), ['r', 0x6d, 0x6e]], {'mode': {'one': ['t', 'b']}, 'm': 2})],
    thorough=[k('k09', ANY3, {'mode': {'one': ['t', 'b']}}), k('k09', S3, dict(ALLC, D=0)), k('k09', ['\x1b[', ['n', PRM, 4, 4], 'm'], {'mode': 't', 'm': 1}), k('k09', T2, dict(ALLC, D={'one': [0, 1]}, f={'one': [None, 1]})),
              k('k09', ['\x1b[', NUM, ';', NUM, ';', NUM, 'm'], {'mode': {'one': ['t', 'b']}, 'm': {'one': [1, 2]}, 'color': True}), k('k09', ['\x1b', ['n', ['r', 0x20, 0x7f], 4, 4]], {'mode': {'one': ['t', 'b']}, 'm': 2}),
              k('k09', ANY1, dict(ALLC, D={'int': [0, 4]}, m={'one': [0, 1, 2]}, f={'one': [None, 1]}, focus={'sub': ['ctrl', 'print', 'utf8']}, ignore={'sub': ['ws', 'esc', 'bin']}, sep='flag'))])
PLAN['K10'] = dict(
    quick=[k('k10', ANY2, {'mode': 't', 'm': {'one': [0, 1, 2]}}), k('k10', ANY2, {'mode': 'b', 'decode': 'flag', 'D': {'one': [0, 2, 4]}}),
           k('k10', S2, {'mode': 't', 'm': 2, 'color': 'flag', 'D': {'one': [0, 4]}}),
           k('k10', SGRP2, {'mode': 't', 'm': {'one': [1, 2]}, 'color': 'flag'}), k('k10', SGRW, {'mode': 't', 'm': {'one': [1, 2]}, 'color': True})],
    thorough=[k('k10', ANY3, {'mode': 't', 'm': {'one': [0, 2]}}), k('k10', ANY3, {'mode': 'b', 'decode': True}), k('k10', S3, {'mode': {'one': ['t', 'b']}, 'm': {'one': [0, 1, 2]}, 'decode': 'flag', 'color': 'flag'}),
              k('k10', SGRP, {'mode': {'one': ['t', 'b']}, 'm': {'one': [1, 2]}, 'color': True}), k('k10', T2, {'mode': {'one': ['t', 'b']}, 'm': 2, 'D': {'int': [1, 4]}, 'decode': 'flag'}), k('k10', H4, {'mode': 'b', 'decode': True})])
PLAN['K11'] = dict(
    quick=[k('k11', ANY2, {'mode': 't', 'm': {'one': [0, 2]}, 'f': {'one': [None, 1]}}), k('k11', ANY2, {'mode': 'b', 'w': {'int': [1, 2]}}),
           k('k11', S2, {'mode': 't', 'm': {'one': [0, 1, 2]}, 'color': True, 'focus': {'one': [[], ['esc'], ['ws']]}}),
           k('k11', S2, {'mode': 'b', 'w': {'int': [1, 3]}, 'color': True, 'focus': {'one': [[], ['esc'], ['ws']]}}),
           k('k11', ['\x1b[', ['n', DIG, 2, 2], 'ma\n', 'b'], {'mode': {'one': ['t', 'b']}, 'w': 2, 'm': 1, 'color': True}), k('k11', ['\x1b[1', DIG, DIG, 'm'], {'mode': 't', 'm': 1, 'color': True}),
           k('k11', ['\x1b[', ['alt', ['4'], ['31']], ';', ['n', DIG, 2, 2], 'ma\n'], {'mode': 't', 'm': 1, 'color': True}),
           k('k11', [LONG, '*', LONG], {'mode': {'one': ['t', 'b']}, 'w': 5, 'm': {'one': [0, 2]}, 'color': 'flag'}),
           k('k11', SGRW + ['a\n', 'b'], {'mode': {'one': ['t', 'b']}, 'w': 2, 'm': {'one': [0, 1]}, 'color': True})],
    thorough=[k('k11', ANY3, {'mode': 't', 'm': {'one': [0, 2]}}), k('k11', ANY3, {'mode': 'b', 'w': 2}), k('k11', S3, {'mode': 't', 'm': {'one': [0, 1, 2]}, 'color': True}), k('k11', S3, {'mode': 'b', 'w': {'int': [1, 4]}, 'color': True, 'decode': 'flag'}),
              k('k11', ['\x1b[', ['n', DIG, 3, 3], 'ma\n', 'b'], {'mode': {'one': ['t', 'b']}, 'w': 2, 'm': 1, 'color': True}), k('k11', ['\x1b[', ['n', DIG, 1, 2], ';', ['n', DIG, 1, 2], 'ma\n'], {'mode': 't', 'm': 1, 'color': True}),
              k('k11', SGRW + SGRW + ['\n'], {'mode': 't', 'm': 1, 'color': True}), k('k11', T2, {'mode': {'one': ['t', 'b']}, 'w': 3, 'focus': {'sub': ['esc', 'ws', 'ctrl', 'utf8']}})])
PLAN['K12'] = dict(
    quick=[k('k12', ANY2, {'mode': 't'}, ignore=['esc', 'ctrl']), k('k12', S2, {'mode': 't'}, ignore=['ws', 'utf8', 'esc']),
           k('k12', S2, {'mode': 't', 'm': 2}, ignore=['esc', 'bin']),
           k('k12', S2, {'mode': 'b', 'w': {'one': [2, 5]}, 'decode': 'flag'}, ignore=['ws', 'esc']), k('k12', S2, {'mode': 'b', 'w': 3}, ignore=['print', 'utf8'])],
    thorough=[k('k12', ANY3, {'mode': 't'}, ignore=['esc', 'ws']), k('k12', ANY3, {'mode': 'b', 'w': 2}, ignore=['ctrl', 'bin']), k('k12', S3, {'mode': 't', 'm': {'one': [0, 2]}}, ignore=['esc', 'ctrl', 'utf8']),
              k('k12', S3, {'mode': 'b', 'w': {'one': [2, 5]}, 'decode': 'flag'}, ignore=['esc', 'utf8', 'bin']), k('k12', T2, {'mode': 't', 'm': 1}, ignore=SUBC), k('k12', T2, {'mode': 'b', 'w': 4}, ignore=SUBC)])
PLAN['K13'] = dict(
    quick=[k('k13', ANY2, {'mode': 't', 'ln': False}, focus=['ws', 'ctrl']), k('k13', S2, {'mode': 't', 'ln': False}, focus=['print', 'utf8', 'esc']),
           k('k13', S2, {'mode': 'b', 'w': 4, 'decode': 'flag'}, focus=['ws', 'esc', 'bin']),
           k('k13', SGRW, {'mode': {'one': ['t', 'b']}, 'ln': False, 'w': 4, 'm': {'one': [0, 1]}}, focus=[], color=True),
           k('k13', S2, {'mode': 't', 'm': 2}, focus=[], color=True)],
    thorough=[k('k13', ANY3, {'mode': 't', 'ln': False}, focus=['esc', 'ws']), k('k13', ANY3, {'mode': 'b', 'w': 3}, focus=['ctrl', 'bin']), k('k13', S3, {'mode': 't', 'ln': False, 'm': {'one': [0, 2]}}, focus=['esc', 'ctrl', 'print']),
              k('k13', S3, {'mode': 'b', 'w': {'one': [2, 5]}, 'decode': 'flag'}, focus=['esc', 'utf8', 'ws']), k('k13', T2, {'mode': 't', 'ln': False, 'm': 1}, focus=SUBC), k('k13', T2, {'mode': 'b', 'w': 4}, focus=SUBC),
              k('k13', SGRP, {'mode': {'one': ['t', 'b']}, 'ln': False, 'w': 4, 'm': 1}, focus=[], color=True)])
PLAN['K14'] = dict(
    quick=[k('k14', ANY2, {'mode': 't', 'ln': False, 'm': {'one': [1, 2]}}),
           k('k14', SGRP, {'mode': 't', 'ln': False, 'm': {'one': [1, 2]}, 'sep': 'flag'}),
           k('k14', ['\x1b[', ['alt', ['38'], ['48']], ';', ['alt', ['5;', ['n', DIG, 0, 3]], ['2;', DIG, ';', DIG, ';', ['n', DIG, 0, 2]]], ['n', ['alt', [';'], [';', DIG]], 0, 1], 'm'], {'mode': 't', 'ln': False, 'm': 1}),
           k('k14', S2, {'mode': 't', 'ln': False, 'm': {'one': [1, 2]}, 'sep': 'flag'})],
    thorough=[k('k14', ANY3, {'mode': 't', 'ln': False, 'm': {'one': [1, 2]}}), k('k14', S3, {'mode': 't', 'ln': False, 'm': {'one': [1, 2]}, 'sep': 'flag'}), k('k14', T3, {'mode': 't', 'ln': False, 'm': {'one': [1, 2]}}),
              k('k14', ['\x1b[', ['n', PRM, 4, 4], 'm'], {'mode': 't', 'ln': False, 'm': {'one': [1, 2]}}), k('k14', ['\x1b', ['n', ['r', 0x20, 0x7f], 4, 4]], {'mode': 't', 'ln': False, 'm': 2}),
              k('k14', ['\x1b[', NUM, ';', NUM, ';', NUM, 'm'], {'mode': 't', 'ln': False, 'm': {'one': [1, 2]}, 'color': 'flag'})])
PLAN['K16'] = dict(
    quick=[k('k16', [['rep', ['r', 0x61, 0x62], 0, 18]], {'width': {'int': [1, 40]}, 'offsets': 'flag'}),
           k('k16', S2, {'width': {'int': [1, 8]}, 'w': 0}),
           k('k16', [['rep', ['r', 0x61, 0x62], 90, 90]], {'width': {'int': [60, 140]}, 'offsets': 'flag', 'w': {'one': [None, 0]}}),
           k('k16', [X('x', 700)], {'width': {'int': [140, 500]}, 'offsets': 'flag'}), k('k16', [X('x', 300), '\n\x1b[1m', X('x', 300)], {'width': {'int': [500, 1200]}, 'color': 'flag'})],
    thorough=[k('k16', [X('x', 1300)], {'width': {'int': [40, 1300]}, 'offsets': 'flag'}), k('k16', S3, {'width': {'int': [1, 80]}, 'w': {'one': [None, 0]}}), k('k16', [['rep', ['r', 0x61, 0x62], 0, 300]], {'width': {'one': [80, 120, 132, 200]}, 'decimal': 'flag'}),
              k('k16', [LONG, ['ts'], LONG], {'width': {'int': [1, 200]}, 'offsets': 'flag', 'f': {'one': [None, 30]}})])
TB = {'one': ['t', 'b']}
PLAN['K17'] = dict(
    quick=[k('k17', S2, {'mode': 't', 'f': {'one': [1, 2]}, 'via': 'file'}, exc='OSError'),
           k('k17', S2, {'mode': 'b', 'w': 2, 'f': 2, 'via': 'file'}, exc='ValueError'),
           k('k17', T1, {'mode': {'one': ['t', 'b']}, 'via': 'file'}, exc='FileNotFoundError', open_=True),
           k('k17ok', S2, {'mode': {'one': ['t', 'b']}, 'via': {'one': ['stdin', 'file', 'dash']}, 'f': {'one': [None, 2]}}),
           k('k17ok', ['ab\n', '*'], {'mode': 't', 'via': {'one': ['stdin', 'file', 'dash']}, 'D': {'int': [0, 4]}, 'f': {'one': [None, 2]}}),
           k('k17', [LONG, ['ts'], LONG, LONG], {'mode': {'one': ['t', 'b']}, 'via': 'file', 'f': 300}, exc='OSError'),
           k('k17', ['a\n', '*'], {'mode': TB, 'D': {'one': [1, 4]}, 'f': 1, 'via': 'file'}, exc='RuntimeError'),
           k('k17int', S2, {'mode': TB, 'w': 2, 'f': 2, 'via': {'one': ['stdin', 'file']}}),
           k('k17out', [['ts'], '*'], {'mode': TB, 'w': 1, 'f': 1, 'via': 'file'}, maxwrite=3),
           k('k17out', ['a\n', '*', 'b\n\xc3\xa9'], {'mode': TB, 'w': 1, 'f': {'one': [2, None]}}, exc='OSError'),
           k('k17int', ['a\n', '*', '\x1b[1mb\n'], {'mode': TB, 'w': 2, 'f': {'one': [1, 3, None]}, 'D': {'one': [0, 2]}})],
    thorough=[k('k17', S3, {'mode': {'one': ['t', 'b']}, 'w': 2, 'f': {'one': [1, 2, 3]}, 'via': 'file'}, exc='OSError'), k('k17', T2, {'mode': {'one': ['t', 'b']}, 'w': {'one': [2, 16]}, 'm': {'one': [0, 2]}, 'f': {'one': [1, 2]}, 'via': 'file'}, exc='ValueError'),
              k('k17', ANY2, {'mode': {'one': ['t', 'b']}, 'f': 1, 'via': 'file'}, exc='OSError'), k('k17', S2, {'mode': {'one': ['t', 'b']}, 'D': {'one': [1, 4]}, 'f': 1, 'via': 'file'}, exc='RuntimeError'),
              k('k17', T2, {'mode': {'one': ['t', 'b']}, 'via': 'file'}, exc='PermissionError', open_=True), k('k17', T2, {'mode': {'one': ['t', 'b']}, 'via': 'file'}, exc='IsADirectoryError', open_=True),
              k('k17out', ANY2, {'mode': TB, 'w': 1, 'f': 1, 'via': {'one': ['stdin', 'file']}}), k('k17out', S3, {'mode': TB, 'w': {'one': [1, 2]}, 'm': {'one': [0, 2]}, 'f': {'one': [2, None]}}, exc='OSError'),
              k('k17int', ANY2, {'mode': TB, 'w': 2, 'f': {'one': [1, 2]}, 'via': {'one': ['stdin', 'file']}}), k('k17int', S3, {'mode': TB, 'w': {'one': [2, 5]}, 'm': {'one': [0, 2]}, 'f': {'one': [1, 2, 5]}}),
              k('k17ok', S3, {'mode': {'one': ['t', 'b']}, 'via': {'one': ['stdin', 'file', 'dash']}, 'D': {'one': [0, 2]}, 'f': {'one': [None, 1, 3]}})])
PLAN['K18'] = dict(
    quick=[k('k18', ANY2, {'mode': 't'}, D=[1, 4]), k('k18', S2, {'mode': 'b', 'w': {'one': [2, 5]}}, D=[1, 4]),
           k('k18', S2, {'mode': 't', 'm': {'one': [0, 2]}}, D=[1, 4])],
    thorough=[k('k18', ANY3, {'mode': 't'}, D=[1, 4]), k('k18', S3, {'mode': 't', 'm': {'one': [0, 1, 2]}}, D=[1, 4]), k('k18', S3, {'mode': 'b', 'w': {'one': [2, 5]}, 'decode': 'flag'}, D=[1, 4]),
              k('k18', T2, {'mode': {'one': ['t', 'b']}, 'w': 3, 'f': {'one': [None, 1]}}, D=[1, 4]), k('k18', [LONG, ['ts'], LONG], {'mode': {'one': ['t', 'b']}, 'w': {'one': [7, 16]}, 'f': {'one': [None, 20]}}, D=[1, 4])])

SGRX = ['\x1b[', ['alt', ['38'], ['48']], ';', ['alt', ['5;', ['n', DIG, 1, 3]], ['2;', DIG, ';', DIG, ';', ['n', DIG, 1, 2]]], ['n', ['alt', [';'], [';', DIG]], 0, 1], 'm']
PLAN['K21'] = dict(
    quick=[k('k21', ANY2, {'mode': TB, 'w': 2}), k('k21', T1, {'mode': 't', 'm': {'one': [0, 1, 2]}, 'focus': {'one': [SUBC, ['ws', 'esc'], ['ctrl', 'print'], ['utf8', 'bin']]}}),
           k('k21', T1, {'mode': 'b', 'w': 3, 'decode': 'flag', 'focus': {'one': [SUBC, ['ws', 'esc'], ['ctrl', 'print'], ['utf8', 'bin']]}}), k('k21', T1, {'mode': 't', 'm': {'one': [1, 2]}, 'sep': 'flag'}),
           k('k21', T2, {'mode': 't', 'm': 1}), k('k21', S2, {'mode': TB, 'w': 3, 'ignore': {'one': [SUBC, ['esc'], ['ws', 'utf8']]}}),
           k('k21', ESCQ, {'mode': TB, 'w': 3, 'm': 2}), k('k21', SGRP2, {'mode': TB, 'w': 3, 'm': 1, 'color': True}),
           k('k21', SGRW, {'mode': TB, 'w': 9, 'm': {'one': [0, 1]}, 'color': True}), k('k21', SGRX, {'mode': 't', 'm': 1, 'color': True}),
           k('k21', ['\x1b[', ['n', DIG, 2, 2], 'ma\n', 'b'], {'mode': TB, 'w': 2, 'm': 1, 'color': True}),
           k('k21', [LONG, '*', LONG], {'mode': TB, 'w': {'one': [16]}, 'm': 2, 'color': True, 'f': {'one': [30]}})],
    thorough=[k('k21', ANY3, {'mode': 't'}), k('k21', ANY3, {'mode': 'b', 'w': 2}), k('k21', S3, {'mode': TB, 'w': 3, 'm': {'one': [0, 1, 2]}, 'focus': {'one': [[], SUBC]}}), k('k21', SGRP, {'mode': TB, 'w': 9, 'm': 1, 'color': True}),
              k('k21', T1, {'mode': TB, 'w': 3, 'm': {'one': [0, 1, 2]}, 'focus': {'sub': SUBC}}), k('k21', T2, {'mode': TB, 'w': 3, 'm': 1, 'ignore': IGN1}),
              k('k21', ['\x1b[', NUM, ';', NUM, ';', NUM, 'm'], {'mode': TB, 'w': 16, 'm': {'one': [0, 1]}, 'color': True})])


IGNF = {'one': [[], ['ws'], ['esc'], ['bin']]}
PLAN['K19'] = dict(
    quick=[h('kol', 'k19', names=None, n=1), h('kol', 'k19', names=None, n=2, filepos=False, forms=[0, 4]),
           h('kol', 'k19', names=['binary', 'columns', 'decode'], n=3), h('kol', 'k19', names=['ignore-binary', 'marker', 'focus-space'], n=3),
           h('kol', 'k19', names=['max-lines', 'buffer'], base=['text'], n=2), h('kol', 'k19', names=['debug', 'no-line-numbers'], n=2),
           h('kol', 'k19def', shape=ANY1, cfg={}), h('kol', 'k19def', shape=[LONG, '*'], cfg={'m': {'one': [0, 1]}, 'ln': 'flag', 'f': 50}),
           h('kol', 'k19def', shape=T1, cfg={'via': {'one': ['file', 'dash']}, 'f': {'one': [1, 3]}, 'ignore': IGNF}),
           h('kol', 'k19bad'), h('kol', 'k19file', shape=['ab\n', ['r', 0x1f, 0x80]]), h('kol', 'k19num', shape=['ab\n\x1b[1m\n', ['r', 0x61, 0x62], 'cdefghi\n']), h('kol', 'k19info', names=['-d', '-D', '-w5', '-s'])],
    thorough=[h('kol', 'k19', names=['binary', 'columns', 'decode', 'ignore-esc', 'focus-space'], n=3),
              h('kol', 'k19', names=['text', 'ignore-binary', 'marker', 'debug', 'max-lines'], n=3),
              h('kol', 'k19', names=['focus-esc', 'focus-utf8', 'focus-control', 'focus-printable', 'focus-binary', 'color-markers'], n=3),
              h('kol', 'k19', names=None, n=2, base=['binary'], forms=[1, 3]), h('kol', 'k19info', names=['-d', '-DDDD', '--no-offsets', '-I', '-m2', '-f1'])])
PLAN['K20'] = dict(
    quick=[k('k20', T1, {}, w=[0, 2]), k('k20', ANY1, {'ignore': IGNF}, few=True, w=[4, 5]),
           k('k20', [LONG, ['ts'], LONG], {'offsets': 'flag'}, few=True, w=[15, 20]),
           k('k20', [['ts']], {'width': {'one': [80, 120]}, 'f': {'one': [None, 1]}}, few=True, w=[0, 0]),
           k('k20', [X('ab', 40), '*'], {'width': {'one': [60, 100, 140]}}, few=True, w=[0, 0])],
    thorough=[k('k20', S2, {'width': {'one': [80, 120]}, 'f': {'one': [None, 1]}}, few=True, w=[0, 0]),
              k('k20', [X('ab', 40), ['ts']], {'width': {'int': [60, 160]}}, few=True, w=[0, 0]),
              k('k20', S2, {'focus': {'one': [[], ['esc']]}, 'color': 'flag', 'D': {'one': [0, 2]}}, few=True, w=[0, 3]),
              k('k20', ANY2, {'ignore': IGNF}, few=True, w=[1, 3])])

NLS = lambda a, b: [['n', ['r', 0x0a, 0x0a, 0x61, 0x61], a, b]]
PLAN['K22'] = dict(
    quick=[k('k22', ANY2, {'mode': TB, 'f': 1, 'w': 1}), k('k22', S2, {'mode': TB, 'w': 2, 'f': {'one': [1, 2, 3]}, 'm': {'one': [0, 2]}}),
           k('k22', H3, {'mode': 'b', 'w': 1, 'f': {'one': [1, 2]}}), k('k22', ESCQ, {'mode': 'b', 'w': 1, 'f': 1}),
           k('k22', S2, {'mode': TB, 'w': 2, 'f': {'one': [None, 1]}, 'L': {'int': [0, 2]}}),
           k('k22', NLS(0, 5), {'mode': 't', 'B': {'int': [0, 5]}, 'L': {'int': [0, 3]}, 'f': {'int': [1, 3]}}),
           k('k22', [['ts'], 'a\n\x1b[1m'], {'mode': TB, 'w': 2, 'plan': {'plan': [[1, 3], [1, 3], [1, 2]]}}),
           k('k22', [X('x' * 99 + '\n', 42), ['ts'], 'ab\n'], {'mode': TB, 'w': 16, 'f': {'one': [None, 0, 128, 1000]}}),
           k('k22', [X('x' * 63 + '\n', 3), ['ts'], LONG], {'mode': TB, 'w': 16, 'D': {'one': [0, 1, 4]}, 'f': {'one': [None, 30]}, 'via': {'one': ['stdin', 'file']}}),
           k('k22', [X('x' * 63 + '\n', 130)], {'mode': TB, 'w': 64, 'L': {'int': [63, 66]}, 'B': {'one': [0, 4095, 4096, 4097]}}),
           k('k22', [X('x' * 63 + '\n', 3)], {'mode': TB, 'w': 64, 'D': {'one': [0, 1]}, 'f': {'one': [4095, 4097, 5000, 20000, 70000, 1500000]}}),
           k('k22', [LONG, '*', LONG], {'mode': TB, 'w': {'one': [7, 16]}, 'f': {'one': [1, 10, 64]}})],
    thorough=[k('k22', ANY3, {'mode': 't', 'f': {'one': [1, 2]}}), k('k22', ANY3, {'mode': 'b', 'w': 2, 'f': 1}), k('k22', S3, {'mode': TB, 'w': 3, 'f': {'one': [1, 2, 3]}}),
              k('k22', NLS(7, 7), {'mode': TB, 'w': 2, 'B': {'int': [0, 7]}, 'L': {'int': [0, 4]}, 'f': {'int': [1, 4]}}), k('k22', H4, {'mode': 'b', 'w': 1, 'f': {'one': [1, 2, 3]}}),
              k('k22', T2, {'mode': TB, 'w': 2, 'plan': {'plan': [[1, 4], [1, 4], [1, 3]]}})])

PLAN['K15'] = dict(
    quick=[h('buf', 'k15', ops='add', menu=['none', 'bold', 'idx'], lens=[1, 2, 3]),
           h('buf', 'k15', ops='aadd', menu=['bold', 'two'], lens=[1, 2, 3]),
           h('buf', 'k15', ops='dadd', menu=['zero', 'rgb'], lens=[1, 4], req=[1, 5]),
           h('buf', 'k15', ops='adad', menu=['green', 'none'], lens=[1, 3], req=[1, 3]),
           h('buf', 'k15', ops='ad', menu=['free', 'fidx'], lens=[1, 3], req=[1, 4]),
           h('buf', 'k15', ops='ad', menu=['inv', 'under'], lens=[1, 2], multi=3, req=[1, 6]),
           h('buf', 'k15line', ops='aad', menu=['none', 'bold'], lens=[0, 1, 2]),
           h('buf', 'k15line', ops='adad', menu=['bold', 'two'], lens=[0, 1]),
           h('buf', 'k15line', ops='ad', menu=['dim', 'none'], lens=[0, 1], multi=3)],
    thorough=[h('buf', 'k15', ops='????', menu=['green', 'rgb'], lens=[1, 2]),
              h('buf', 'k15', ops='aaddd', menu=['bold', 'two'], lens=[1, 3], req=[1, 4]),
              h('buf', 'k15', ops='aad', menu=['free', 'bold'], lens=[2], req=[1, 4]),
              h('buf', 'k15', ops='ad', menu=['bold', 'green', 'none'], lens=[1, 2], multi=4, req=[1, 9]),
              h('buf', 'k15line', ops='????', menu=['bold'], lens=[0, 1]),
              h('buf', 'k15line', ops='???', menu=['bold', 'two'], lens=[0, 1, 2])])
NAMED_Q = [1, 4, 7, 21, 22, 31, 38, 39, 48, 53, 97, 100, None]
PLAN['P01'] = dict(
    quick=[h('pt', 'p01', items=['free', 'free']), h('pt', 'p01', items=[[38, 48], [2, 5], 'byte', 'byte']),
           h('pt', 'p01', items=[[38, 48], [2], 'byte', 'byte', 'byte']),
           h('pt', 'p01', items=[[1, 38, None], [5, 31], 'byte', [1, None], 'byte']),
           h('pt', 'p01', items=[NAMED_Q, NAMED_Q, NAMED_Q]),
           h('pt', 'p01names', n=1), h('pt', 'p01presets'), h('pt', 'p01explicit'), h('pt', 'p01', items=[])],
    thorough=[h('pt', 'p01', items=[[1, 4, 38, None], [5, 2, 31], 'byte', [1, 22, 38, None], 'byte']), h('pt', 'p01names', n=2), h('pt', 'p01', items=['free', 'free', [1, 4, 5, 9, 38, 48, 0, 39]]),
              h('pt', 'p01', items=[[38, 48], [2], 'byte', 'byte', 'byte', 'free', [None, 1, 38]]),
              h('pt', 'p01', items=[[38], [5], 'byte', [48], [5], 'byte', 'free']),
              h('pt', 'p01', items=['free', [38], [5], 'byte', [1, 5, 38, 48, None], [5, 2, 4, None], 'byte'])])
PLAN['P02'] = dict(
    quick=[h('pt', 'p02', n=n) for n in range(5)] + [h('pt', 'p02neg'), h('pt', 'p02mix', n=1), h('pt', 'p02mix', n=3), h('pt', 'p02', n=2, hi=99999)] +
          [h('pt', 'p02add', n=a, m=b) for a, b in ((0, 0), (0, 1), (1, 0), (1, 1), (2, 1), (2, 3), (0, 2))] +
          [h('pt', 'p02eq', n=a, m=b) for a, b in ((0, 0), (0, 1), (1, 1), (1, 2), (2, 2), (3, 2))] +
          [h('pt', 'p02eq', n=a, m=a, hi=9) for a in (9, 24)] + [h('pt', 'p02eq', n=10, m=9, hi=9)] + [h('pt', 'p02span', n=a, m=b) for a, b in ((1, 0), (1, 1), (2, 1), (0, 1))],
    thorough=[h('pt', 'p02', n=6), h('pt', 'p02', n=8), h('pt', 'p02', n=12, hi=255), h('pt', 'p02eq', n=3, m=3), h('pt', 'p02eq', n=4, m=4),
              h('pt', 'p02eq', n=5, m=5, hi=9), h('pt', 'p02add', n=5, m=5), h('pt', 'p02add', n=1, m=7), h('pt', 'p02eq', n=2, m=2, hi=99999)])
PLAN['P03'] = dict(
    quick=[h('pt', 'p03strip', n=4), h('pt', 'p03strip', n=5, few=True), h('pt', 'p03strip', n=3, words=True),
           h('pt', 'p03just', n=2, width=[0, 8]), h('pt', 'p03just', n=2, width=[0, 20], words=True, fill='*'),
           h('pt', 'p03just', n=3, width=[0, 7], few=True)],
    thorough=[h('pt', 'p03strip', n=7), h('pt', 'p03strip', n=8, few=True), h('pt', 'p03strip', n=4, words=True),
              h('pt', 'p03just', n=4, width=[0, 12]), h('pt', 'p03just', n=3, width=[0, 14], words=True)])
PLAN['P04'] = dict(
    quick=[h('pt', 'p04rgb'), h('pt', 'p04join'), h('pt', 'p04fmt'), h('pt', 'p04idx'), h('pt', 'p04hsv'), h('pt', 'p04eq'), h('pt', 'p04ext', rgb=False), h('pt', 'p04ext', rgb=True)],
    thorough=[])
PLAN['P05'] = dict(
    quick=[h('pt', 'p05real', cls='ColorIndexed16'), h('pt', 'p05real', cls='ColorIndexed256'),
           h('pt', 'p05hist', steps='fAf', npal=2), h('pt', 'p05hist', steps='nfAf', npal=0), h('pt', 'p05hist', steps='fff', npal=2),
           h('pt', 'p05hist', steps='fa', npal=2), h('pt', 'p05hist', steps='FAFA', npal=3), h('pt', 'p05hist', steps='fFA', npal=2),
           h('pt', 'p05approx', npal=4, k=2), h('pt', 'p05approx', npal=5, k=1), h('pt', 'p05approx', npal=2, k=3)],
    thorough=[h('pt', 'p05real', cls='ColorIndexed16', hist=1), h('pt', 'p05hist', steps='FAFA?', npal=3), h('pt', 'p05hist', steps='fFA', npal=6),
              h('pt', 'p05hist', steps='????', npal=1), h('pt', 'p05hist', steps='fAfAf', npal=1), h('pt', 'p05hist', steps='ff', npal=6),
              h('pt', 'p05hist', steps='aF', npal=1), h('pt', 'p05approx', npal=6, k=6), h('pt', 'p05approx', npal=5, k=3)])
PLAN['P06'] = dict(
    quick=[h('pt', 'p06', L=1, den=4, lo=-100, hi=100), h('pt', 'p06', L=2, den=4, lo=-1000, hi=1000), h('pt', 'p06', L=3, den=1, lo=-8000, hi=8000),
           h('pt', 'p06', L=3, den=1048576, lo=-1000, hi=1000), h('pt', 'p06', L=4, den=8, lo=-8000, hi=8000),
           h('pt', 'p06', L=4, den=1024, lo=-20000, hi=20000, exp=False), h('pt', 'p06', L=4, den=65536, lo=-10000, hi=10000),
           h('pt', 'p06', L=5, den=1, lo=-2000000, hi=20000000), h('pt', 'p06', L=5, den=32, lo=-40000, hi=400000),
           h('pt', 'p06', L=6, den=1, lo=-20000000, hi=200000000), h('pt', 'p06', L=6, den=16, lo=-40000, hi=40000, exp=True)],
    thorough=[h('pt', 'p06', L=5, den=64, lo=-800000, hi=8000000), h('pt', 'p06', L=9, den=1, lo=-20000000000, hi=20000000000000),
              h('pt', 'p06', L=7, den=1024, lo=-200000, hi=200000), h('pt', 'p06', L=8, den=4, lo=-20000000, hi=200000000),
              h('pt', 'p06', L=5, den=1 << 30, lo=-1000, hi=1000), h('pt', 'p06', L=10, den=2, lo=-2000, hi=2000),
              h('pt', 'p06', L=12, den=1, lo=-2000, hi=2000000)])
P07Q = [('metric', 1, 1, -2000000, 2000000), ('metric', 1024, 1, -2000, 2000), ('metric', 1 << 20, 1, -2000, 2000),
        ('metric', 1, 10 ** 6, -20000, 20000), ('metric', 8, 10 ** 12, -2000, 20000), ('metric', 64, 1, -100000, 100000),
        ('binary', 1, 1, -5000, 2000000), ('binary', 8, 1 << 20, -20000, 20000), ('binary', 1, 1 << 30, -3000, 3000), ('binary', 4, 1, -10, 10000),
        ('metric', 1 << 40, 1, -5000, 5000), ('metric', 1 << 60, 1, -5000, 5000), ('metric', 1 << 80, 1, 2, 5000), ('metric', 1, 10 ** 20, -2000, 20000),
        ('metric', 1, 10 ** 24, -900, 900), ('metric', 1, 10 ** 15, -2000, 20000), ('binary', 1, 1 << 50, -2000, 2000), ('binary', 1, 1 << 40, -2000, 2000)]
P07T = [('metric', 1, 1, -2 * 10 ** 9, 2 * 10 ** 9),
        ('metric', 16, 1, -200000, 2000000), ('binary', 1, 1 << 70, -2000, 2000), ('metric', 1 << 30, 1, -500000, 500000), ('metric', 1, 10 ** 22, -50000, 50000), ('binary', 1, 1, -2000000, 2 * 10 ** 9), ('binary', 32, 1024, -200000, 200000)]
PLAN['P07'] = dict(
    quick=[h('pt', 'p07', kind=a, den=b, mul=c, lo=d, hi=e) for a, b, c, d, e in P07Q] +
          [h('pt', 'p07', kind='metric', den=1, mul=1, lo=-1100, hi=1100, unit='bps'), h('pt', 'p07', kind='binary', den=1, mul=1, lo=0, hi=1100, unit=None), h('pt', 'p07', kind='metric', den=1, mul=1, lo=0, hi=1100, unit=None)],
    thorough=[h('pt', 'p07', kind=a, den=b, mul=c, lo=d, hi=e) for a, b, c, d, e in P07T])
PLAN['P08'] = dict(
    quick=[h('pt', 'p08', maxlen=m, lo=-100000, hi=9000000) for m in (3, 5)] +
          [h('pt', 'p08', maxlen=m, lo=-40000000, hi=4000000000) for m in (4, 6, 8)] +
          [h('pt', 'p08', maxlen=10, lo=-40000000000, hi=40000000000), h('pt', 'p08', maxlen=None, lo=-4000000, hi=400000000),
           h('pt', 'p08', maxlen=25, lo=-100000, hi=4000000)] +
          [h('pt', 'p08', maxlen=m, lo=-100000, hi=4000000, den=1024) for m in (3, 4, 6, 10)],
    thorough=[h('pt', 'p08', maxlen=m, lo=-10 ** 12, hi=10 ** 12) for m in (3, 4, 5, 6, 7, 9, 10, 12)] +
             [h('pt', 'p08', maxlen=m, lo=-10 ** 9, hi=10 ** 9, den=64) for m in (3, 4, 6, 10)])
A3 = ['bold', 'underlined', 'double_underlined']
A3b = ['dim', 'inversed', 'overlined']
A3c = ['blink', 'crosslined', 'italic']
ALLA = ['blink', 'bold', 'crosslined', 'dim', 'double_underlined', 'inversed', 'italic', 'overlined', 'underlined']
PLAN['P09'] = dict(
    quick=[h('pt', 'p09sgr', n=2, attrs=A3, fgk=['none', 'i16', 'i256'], bgk=['none', 'rgbm'], compat=16),
           h('pt', 'p09sgr', n=3, attrs=['bold', 'italic'], fgk=['none'], bgk=['none', 'rgbm'], compat=256),
           h('pt', 'p09sgr', n=4, attrs=['dim'], fgk=['none'], bgk=['none']),
           h('pt', 'p09sgr', n=2, attrs=['dim'], fgk=['none'], bgk=['none'], txt=1),
           h('pt', 'p09sgr', n=1, attrs=ALLA, fgk=['none'], bgk=['none']),
           h('pt', 'p09sgr', n=1, attrs=[], fgk=['rgb', 'name'], bgk=['none', 'zero']),
           h('pt', 'p09sgr', n=2, attrs=['bold'], fgk=['rgbm'], bgk=['i256'], force=False),
           h('pt', 'p09sgr', n=1, attrs=A3b, fgk=['rgbm', 'i256', 'i16'], bgk=['i16', 'i256', 'rgbm'], compat=256),
           h('pt', 'p09tmux', n=2, attrs=A3, fgk=['none', 'i16', 'i256'], bgk=['none', 'rgbm']),
           h('pt', 'p09tmux', n=1, attrs=A3b + A3c, fgk=['none', 'name'], bgk=['none']),
           h('pt', 'p09tmux', n=1, attrs=['bold'], fgk=['none'], bgk=['rgb']), h('pt', 'p09tmux', n=1, attrs=[], fgk=['none', 'i16all'], bgk=['none', 'i16all']),
           h('pt', 'p09tmux', n=1, attrs=[], fgk=['i256all'], bgk=['none', 'i256']), h('pt', 'p09sgr', n=1, attrs=[], fgk=['none', 'i16all'], bgk=['i16all']),
           h('pt', 'p09html', n=1, attrs=A3 + A3b, fgk=['none', 'rgbm'], bgk=['none', 'i16']),
           h('pt', 'p09html', n=2, attrs=A3c, fgk=['rgb'], bgk=['none']),
           h('pt', 'p09other', n=2, attrs=['bold'], fgk=['none', 'rgbm'], bgk=['none', 'i16'])],
    thorough=[h('pt', 'p09sgr', n=6, attrs=['dim'], fgk=['none'], bgk=['none', 'i16']),
              h('pt', 'p09sgr', n=2, attrs=ALLA, fgk=['none', 'i16'], bgk=['none']),
              h('pt', 'p09sgr', n=2, attrs=['bold'], fgk=['rgb'], bgk=['rgb']),
              h('pt', 'p09sgr', n=4, attrs=['bold'], fgk=['rgbm'], bgk=['none'], txt=1),
              h('pt', 'p09sgr', n=1, attrs=['bold'], fgk=['rgb'], bgk=['none'], compat=16),
              h('pt', 'p09tmux', n=2, attrs=ALLA, fgk=['none'], bgk=['none', 'rgbm']), h('pt', 'p09tmux', n=4, attrs=['bold'], fgk=['none'], bgk=['i16']),
              h('pt', 'p09html', n=2, attrs=ALLA, fgk=['none', 'rgbm'], bgk=['none', 'i16']),
              h('pt', 'p09other', n=3, attrs=['bold', 'dim'], fgk=['none', 'rgbm'], bgk=['none', 'i16'])])
PLAN['P10'] = dict(
    quick=[h('pt', 'p10', pair=[a, b]) for a, b in zip(ALLA[::2], ALLA[1::2] + ['class_name'])] +
          [h('pt', 'p10', pair=['bold'], depth=2), h('pt', 'p10', pair=['class_name', 'dim'], colors=False, depth=2),
           h('pt', 'p10render', attrs=['bold', 'blink', 'inversed'])],
    thorough=[h('pt', 'p10', pair=[a, b], colors=False, depth=2) for i, a in enumerate(ALLA) for b in ALLA[i + 1:]] +
             [h('pt', 'p10', pair=[a], depth=3, colors=False) for a in ALLA] + [h('pt', 'p10render', attrs=ALLA[:6])])
PLAN['P11'] = dict(
    quick=[h('pt', 'p11dist', n=n, maxv=v, maxlen=m) for n, v, m in ((0, 1, 4), (1, 3, 9), (2, 3, 14), (3, 2, 16), (4, 1, 14))] +
          [h('pt', 'p11thou', digits=d, sep=s) for d, s in ((1, None), (4, None), (7, ','), (9, None), (8, ''), (7, '::'))],
    thorough=[h('pt', 'p11dist', n=n, maxv=v, maxlen=m) for n, v, m in ((3, 4, 40), (4, 3, 30), (5, 2, 30), (6, 1, 40), (2, 6, 60))] +
             [h('pt', 'p11thou', digits=d, sep=s) for d, s in ((13, None), (16, '.'), (21, None), (30, "'"))])
PLAN['P12'] = dict(
    quick=[h('pt', 'p12', ops=['?'], n=2), h('pt', 'p12', ops=['?', '?'], n=1), h('pt', 'p12', ops=['append', 'radd', 'add'], n=1), h('pt', 'p12one')],
    thorough=[h('pt', 'p12', ops=['?', '?', 'prepend'], n=1), h('pt', 'p12', ops=['?', '?'], n=2), h('pt', 'p12', ops=['iadd', 'prepend', 'add', 'radd'], n=1)])

PLAN['P13'] = dict(
    quick=[h('pt', 'p13', nu=2, coll=[1], neg=False, hi=30, rmax=5, ovmax=4), h('pt', 'p13', nu=2, coll=[], neg=True, hi=40, rmax=12, ovs=[1, 3, 10], msg='OVERFLOWING'),
           h('pt', 'p13', nu=3, coll=[2], neg=False, rs=[[60], [60]], cs=[1, 10, 60], ovs=[99], hi=20000),
           h('pt', 'p13', nu=3, coll=[1], neg=True, rs=[[60], [60]], cs=[2, 60], ovs=[9], hi=40000, den=16, sep=' ', plural='s', short='mn'),
           h('pt', 'p13', nu=4, coll=[2], neg=True, rs=[[3, 10], [7], [2, 24]], cs=[1, 2, 7], ovs=[1, 10], hi=6000, sep=' ', plural='s'),
           h('pt', 'p13', nu=1, coll=[], neg=True, hi=400, den=4, ovs=[1, 10, 99], plural='s'), h('pt', 'p13pick', lens=[4, 6, 9], q=12)],
    thorough=[h('pt', 'p13', nu=3, coll=[1, 2], neg=False, rs=[[60], [60]], cs=[1, 10, 60], ovs=[99], hi=400000),
              h('pt', 'p13', nu=2, coll=[1], neg=False, hi=100), h('pt', 'p13', nu=3, coll=[1], neg=False, hi=150, rmax=6, ovmax=4),
              h('pt', 'p13', nu=4, coll=[2, 3], neg=True, rs=[[60], [60], [24]], cs=[7, 24], ovs=[99], hi=10000000, sep=' ', plural='s'),
              h('pt', 'p13', nu=4, coll=[1, 3], neg=True, rs=[[3], [10, 11], [2, 24]], cs=[1, 2, 3], ovs=[1, 10], hi=20000, den=8)])

W = lambda fn, **kw: h('pt2', fn, **kw)
PLAN['P14'] = dict(
    quick=[W('p14ws', n=3)] + [W('p14ws', n=2, dom=d, repl=r) for d, r in ((1, 'ab'), (2, None), (3, '#'), (4, None), (5, ''))] + [W('p14ws', n=1, dom=6),
           W('p14csi', n=4), W('p14csi', n=3, words=True, tpl='groups'), W('p14csi', n=3, words=True), W('p14csi', n=3, tpl='<>'),
           W('p14sgr', n=4), W('p14sgr', n=3, words=True), W('p14sgr', n=2, words=True, tpl='groups'), W('p14sgr', n=3, tpl='<>'),
           W('p14bytes', n=5), W('p14bytes', n=3, repl='<?>'), W('p14bytes', n=3, repl=''), W('p14chain', n=2, k=3)],
    thorough=[W('p14ws', n=5), W('p14csi', n=6), W('p14sgr', n=6), W('p14sgr', n=4, words=True, tpl='groups'),  W('p14csi', n=4, words=True, tpl='groups'), W('p14bytes', n=9), W('p14chain', n=3, k=3), W('p14chain', n=1, k=5)])
PLAN['P15'] = dict(
    quick=[W('p15resolve', reg='Colors', maxsym=2), W('p15resolve', reg='Seqs'), W('p15resolve', reg='Spans'), W('p15resolve', reg='IntCodes'), W('p15resolve', reg='Styles'),
           W('p15near', reg='IntCodes', step=4), W('p15near', reg='Seqs', step=12), W('p15near', reg='Colors', step=60), W('p15near', reg='Styles', step=1), W('p15unknown', reg='Colors', n=3), W('p15unknown', reg='IntCodes', n=3), W('p15style', how=['int', 'none', 'inst']), W('p15style', how=['name', 'int']),
           W('p15autopick', kind='rgb'), W('p15autopick', kind='preset'), W('p15autopick', kind='none')],
    thorough=[W('p15near', reg='Colors', step=7), W('p15near', reg='Spans', step=1), W('p15near', reg='IntCodes', step=1), W('p15resolve', reg='Colors', maxsym=6), W('p15unknown', reg='Colors', n=4), W('p15unknown', reg='Spans', n=4), W('p15style', how=['int', 'name', 'inst', 'none'])])
P16S = [dict(prefixes=[None, 'k', 'M'], zero=0, lo=-1200, hi=2000000, unit='b'),
        dict(prefixes=['u', 'm', None, 'k'], zero=2, lo=-2000, hi=3000, unit='b', den=1 << 20, sep=' ', over='xyz'),
        dict(prefixes=[None, 'Ki', 'Mi'], zero=0, lo=-1200, hi=20000, den=4, mul=1000, unit='B', mcoef=1024, maxv=5, trunc=True, over='bit'),
        dict(prefixes=['c', 'd', None, 'da', 'h'], zero=2, lo=-3000, hi=30000, den=16, mcoef=10, maxv=4),
        dict(prefixes=[None, 'k'], zero=0, lo=-10000, hi=10000, mul=1000, maxv=6, unit='x', sep='_'),
        dict(prefixes=['p', 'n', None], zero=2, lo=-10000, hi=10000, den=1 << 30, maxv=5),
        dict(prefixes=['K', None, 'M'], zero=0, lo=-1200, hi=1200000, trunc=True), dict(prefixes=['m', None, 'k'], zero=1, lo=-40, hi=4000, den=16, trunc=True, unit='x')]
PLAN['P16'] = dict(
    quick=[W('p16', **a) for a in P16S],
    thorough=[W('p16', **dict(a, lo=a['lo'] * 50, hi=a['hi'] * 50)) for a in P16S] + [W('p16', **dict(a, maxv=7, over=None)) for a in P16S])

PLAN['P17'] = dict(
    quick=[W('p17', ops='f'), W('p17', ops='m', colors=['rgb']), W('p17', ops='ff', via=['sgr'], colors=['rgb', 'i256']), W('p17', ops='fp', via=['sgr', 'tmux'], colors=['rgb']), W('p17', ops='fm', via=['text', 'str', 'debug'], colors=['rgb']),
           W('p17', ops='ftT', via=['sgr', 'text'], colors=['i16']), W('p17', ops='pmz', via=['text', 'tmux'], colors=['rgb']), W('p17', ops='?tm', via=['text'], colors=['i256']), W('p17', ops='f?', via=['text'], colors=['i256']),
           W('p17', ops='mtmt', via=['style', 'format'], colors=['none'])],
    thorough=[W('p17', ops='fff', via=['sgr', 'tmux'], colors=['rgb', 'i256']), W('p17', ops='????', via=['text'], colors=['rgb']), W('p17', ops='???', via=['str', 'tmux'], colors=['rgb', 'i16']),
              W('p17', ops='fTfm', via=['format', 'debug'], colors=['rgb'])])


# runs of one byte (any) and of one word (any of the menu)
def runs(*ks):
    return [['alt'] + [[['rep', x, n, n]] for n in ks for x in ('*', ['t'])]]


RUNQ, RUNT = runs(4, 9, 34), runs(3, 6, 17, 66, 130, 260)
SGRN = ['\x1b[', ['n', ['alt', ['1;'], ['31;'], ['38;5;'], ['48;2;1;2;']], 3, 4], ['r', 0x30, 0x39], 'm']
SGRM = ['\x1b[', ['alt', ['38'], ['48']], ';', ['alt', ['5'], ['2'], ['']], ['n', ['alt', [';>4'], [';4:3'], [';'], [';7'], [';?']], 1, 3], 'm']
FQ, FT = {'one': [None, 5]}, {'one': [None, 1, 7, 64]}
for _p, _fn, _cfg, _kw in (
        ('K01', 'k01', {'w': {'one': [5, 16]}, 'decode': 'flag'}, {}), ('K02', 'k02', {'w': {'one': [5, 16]}, 'decode': 'flag'}, {}),
        ('K04', 'k04', {'mode': 't', 'ln': False, 'ignore': {'one': [['ws', 'utf8', 'ctrl'], ['print', 'esc', 'bin']]}}, {}),
        ('K05', 'k05', {'mode': 't', 'ln': False}, {}), ('K05', 'k05', {'mode': 'b', 'w': 8}, {}), ('K06', 'k06', {'ln': True}, {}),
        ('K07', 'k07', {'mode': TB, 'w': 16, 'f': {'one': [1, 6]}}, {}), ('K08', 'k08', {'mode': TB, 'w': 16, 'B': {'one': [1, 8, 30]}}, {}),
        ('K08', 'k08', {'mode': 't', 'L': {'one': [1, 3]}}, {}),
        ('K09', 'k09', {'mode': TB, 'm': {'one': [0, 1, 2]}, 'color': 'flag'}, {}), ('K10', 'k10', {'mode': TB, 'm': {'one': [0, 2]}, 'decode': 'flag'}, {}),
        ('K11', 'k11', {'mode': TB, 'm': {'one': [0, 2]}, 'w': {'one': [4, 15]}, 'color': 'flag'}, {}), ('K12', 'k12', {'mode': TB, 'w': 7}, dict(ignore=['esc', 'ctrl', 'utf8'])),
        ('K12', 'k12', {'mode': TB, 'w': 7}, dict(ignore=['ws', 'print', 'bin'])),
        ('K13', 'k13', {'mode': TB, 'ln': False, 'w': 7}, dict(focus=['esc', 'print'])), ('K13', 'k13', {'mode': TB, 'ln': False, 'w': 7}, dict(focus=['ws', 'ctrl'])),
        ('K14', 'k14', {'mode': 't', 'ln': False, 'm': {'one': [1, 2]}}, {}), ('K16', 'k16', {'width': {'one': [10, 43, 80]}}, {}),
        ('K18', 'k18', {'mode': TB, 'w': 7}, dict(D=[1, 4])), ('K21', 'k21', {'mode': TB, 'w': 7, 'm': {'one': [0, 1, 2]}}, {}), ('K22', 'k22', {'mode': TB, 'w': 7, 'f': {'one': [1, 5]}}, {})):
    _f = {} if 'f' in _cfg or _p in ('K16', 'K18') else {'f': FT}
    PLAN[_p]['quick'].append(k(_fn, RUNQ, _cfg, **_kw))
    PLAN[_p]['thorough'].append(k(_fn, RUNT, dict(_cfg, **_f), **_kw))
for _p, _fn, _cfg in (('K09', 'k09', {'mode': 't', 'm': {'one': [1, 2]}, 'color': 'flag'}), ('K14', 'k14', {'mode': 't', 'ln': False, 'm': 1}),
                      ('K21', 'k21', {'mode': 't', 'm': 1, 'color': 'flag'}), ('K11', 'k11', {'mode': 't', 'm': 1, 'color': True})):
    PLAN[_p]['quick'].append(k(_fn, SGRN, _cfg))
    PLAN[_p]['quick'].append(k(_fn, SGRM, _cfg))
# parameter and intermediate bytes in numbers beyond the usual, final bytes, introducers
_PB, _IB = ['r', 0x30, 0x3f], ['r', 0x20, 0x2f]
LONGSEQ = ['a', ['alt', ['\x1b[', ['repk', _PB, 0, 7, 40], ['repk', _IB, 0, 3, 9], ['r', 0x40, 0x6c, 0x6e, 0x7e]],
                 ['\x1b', ['repk', _IB, 2, 5, 12], ['r', 0x30, 0x7e]], ['\x1b[', ['repk', _PB, 7, 40], ['repk', _IB, 1, 4], 'm']], 'z\n']
for _p, _fn, _cfg, _kw in (
        ('K01', 'k01', {'w': {'one': [5, 16]}}, {}), ('K04', 'k04', {'mode': 't', 'ln': False, 'ignore': {'one': [[], ['esc']]}}, {}),
        ('K05', 'k05', {'mode': 't', 'ln': False, 'm': {'one': [0, 1, 2]}}, {}), ('K07', 'k07', {'mode': TB, 'w': 16, 'f': {'one': [1, 5, 16]}}, {}),
        ('K09', 'k09', {'mode': TB, 'm': {'one': [0, 1, 2]}, 'color': 'flag'}, {}), ('K14', 'k14', {'mode': 't', 'ln': False, 'm': {'one': [1, 2]}}, {}),
        ('K21', 'k21', {'mode': 't', 'm': {'one': [0, 2]}}, {})):
    PLAN[_p]['quick'].append(k(_fn, LONGSEQ, _cfg, **_kw))
# big numbers as SGR parameters
_D = ['r', 0x30, 0x30, 0x39, 0x39]
PLAN['K14']['quick'].append(k('k14', ['\x1b[', ['alt', [''], ['38;5;'], ['48;2;9;255;'], ['1;']], ['n', _D, 4, 5], 'm'], {'mode': 't', 'ln': False, 'm': {'one': [1, 2]}}))
PLAN['K14']['thorough'].append(k('k14', ['\x1b[', ['alt', [''], ['38;5;'], ['48;2;9;255;'], ['1;']], ['n', _D, 6, 6], 'm'], {'mode': 't', 'ln': False, 'm': {'one': [1, 2]}}))
PLAN['K21']['quick'].append(k('k21', ['\x1b[', ['alt', [''], ['38;5;']], ['n', _D, 4, 4], 'm'], {'mode': 't', 'm': 1}))
# many columns
WIDE = [['alt', [['rep', '*', 66, 66]], [['rep', '*', 130, 130]], [['rep', '*', 305, 305]]], '\xc3\xa4z']
PLAN['K02']['quick'].append(k('k02', WIDE, {'w': {'one': [63, 65, 100, 300]}, 'decode': 'flag'}))
PLAN['K01']['quick'].append(k('k01', WIDE, {'w': {'one': [65, 300]}}))
PLAN['K03']['quick'].append(h('kol', 'k03line', hi=10 ** 6))
PLAN['K03']['thorough'].append(h('kol', 'k03line', hi=10 ** 12))

# longer inputs, numbers and histories
def more(prop, *cases):
    PLAN[prop]['quick'] += cases


more('P01', h('pt', 'p01', items=[[1], [3], [4], [38], [5], 'byte', [48], [2], 'byte', 'byte', 'byte', [7], [9], 'free', [31, 44]]),
     h('pt', 'p01', items=[[1], [31], [44], [9], [53], [7], [5], [3], [2], 'free', 'free']))
more('P02', h('pt', 'p02', n=24, hi=9), h('pt', 'p02add', n=9, m=12, hi=99))
more('P03', h('pt', 'p03strip', n=3, around='seqs'), h('pt', 'p03strip', n=3, around='inseq'),
     h('pt', 'p03just', n=2, width=[90, 200], few=True, around='inseq'), h('pt', 'p03just', n=1, width=[0, 300], few=True))
more('P05', h('pt', 'p05approx', npal=11, k=9, grey=True), h('pt', 'p05hist', steps='fffff', npal=1), h('pt', 'p05hist', steps='fF', npal=2, pre=60),
     h('pt', 'p05hist', steps='ff', npal=1, pre=12))
more('P06', h('pt', 'p06', L=12, den=64, lo=-1000, hi=1000))
more('P09', h('pt', 'p09sgr', n=2, attrs=['bold'], fgk=['none', 'i16'], bgk=['none'], around='text'), h('pt', 'p09tmux', n=1, attrs=['bold'], fgk=['none', 'i16'], bgk=['none'], around='text'),
     h('pt', 'p09html', n=1, attrs=['bold'], fgk=['none', 'rgbm'], bgk=['none'], around='text'), h('pt', 'p09other', n=1, attrs=['bold'], fgk=['none', 'rgbm'], bgk=['none'], around='text'))
more('P11', h('pt', 'p11dist', n=0, maxv=0, maxlen=200, lens=[1, 3, 0, 2, 4, 5, 1, 1, 2, 12, 3]), h('pt', 'p11dist', n=0, maxv=0, maxlen=400, lens=[1, 3, 0]))
more('P12', h('pt', 'p12', ops=['?'], n=1, start=9))
more('P13', h('pt', 'p13', nu=5, coll=[1], neg=False, rs=[[2], [3], [2], [10]], cs=[1, 2], ovs=[9], hi=1500),
     h('pt', 'p13', nu=6, coll=[2, 4], neg=True, rs=[[3], [2], [2, 4], [3], [5]], cs=[2], ovs=[3], hi=1200, sep=' ', plural='s'))
more('P14', W('p14ws', n=1, around='text'), W('p14csi', n=2, around='seqs'), W('p14csi', n=2, around='inseq', tpl='groups'), W('p14sgr', n=2, around='seqs'),
     W('p14sgr', n=2, around='inseq', tpl='groups'), W('p14bytes', n=2, around=20), W('p14chain', n=1, k=4))
more('P16', W('p16', prefixes=['n', 'u', 'm', None, 'k', 'M', 'G', 'T', 'P', 'E'], zero=3, lo=1, hi=3000, mul=10 ** 12, unit='b'),
     W('p16', prefixes=['f', 'p', 'n', 'u', 'm', None, 'k', 'M'], zero=5, lo=-3000, hi=3000, den=1 << 40, unit='b'))


def relevant(prop):
    return None


from harness_bounds import BOUNDS, assumptions

for _k in PLAN:
    PLAN[_k]['bounds'] = BOUNDS[_k]

NOTES = {'*': 'Every path of the real code for the stated symbolic inputs is explored; z3 decides each assertion for all '
              'values on the path, within the bounds listed in the evidence. Trusted: the symbolic models of Python built-in '
              'operations (str/bytes/int/re), cross-checked by replaying a sample of paths on the untouched code.'}
