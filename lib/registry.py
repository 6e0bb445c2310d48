"""which machinery decides which property"""
from loxprop import lox_property
import locks

LABS = ['@closure', '@maphist', '@literal', '@arrhist', '@strhist', '@barrier', '@optim', '@procs', '@classes', '@params', '@trys', '@loops', '@jumps', '@iters', '@freezes', '@arrops', '@mapkeys', '@optable', '@consts', '@reopen', '@scripts', '@files']
ALL = ['expr', 'scope', 'loop', 'exc', 'block', 'args', 'oo', 'array', 'map', 'string', 'mix', 'iter', 'freeze', 'const']

def both(*fs):
    def run(ctx):
        for f in fs:
            f(ctx)
    return run


PROPS = {
    'P01': lox_property([('expr', 1), ('@optable', 1), ('@prec', 1), ('@folds', 1)], 1200),
    'P02': lox_property([('scope', 1), ('@closure', 1)], 1000),
    'P03': lox_property([('loop', 1), ('@optim', 1), ('@loops', 2)], 900),
    'P04': lox_property([('exc', 1), ('@trys', 2)], 900),
    'P05': lox_property([('block', 1), ('@jumps', 2)], 900),
    'P06': lox_property([('args', 1), ('@params', 2)], 900),
    'P07': lox_property([('oo', 1), ('@classes', 2)], 900),
    'P08': lox_property([(p, 3 if p in ('expr', 'loop', 'exc', 'mix') else 1) for p in ALL] + [('@optim', 8), ('@literal', 2), ('@closure', 2), ('@loops', 2), ('@prec', 2), ('@jumps', 1), ('@consts', 1), ('@folds', 4)], 650, optsets=((), ('--disable-bopt',))),
    'P09': lox_property([(p, 1) for p in ALL + LABS] + [('@barrier', 15)], 300, optsets=(('--stress-GC=young',), ('--stress-GC=full',), ('--stress-GC=both',), ('--disable-GC',)), timeout=60),
    'P11': lox_property([('array', 1), ('@arrhist', 1), ('@literal', 1), ('@arrops', 1)], 1000),
    'P12': lox_property([('map', 2), ('@maphist', 2), ('@strhist', 1), ('@mapkeys', 2)], 900),
    'P13': lox_property([('string', 1), ('@strhist', 1)], 900),
    'P14': lox_property([('freeze', 1), ('@freezes', 1)], 800),
    'P15': lox_property([('iter', 2), ('loop', 1), ('@iters', 3)], 600),
    'P16': both(locks.progress, lox_property([('@threads', 1)], 300, optsets=((), (), ('--stress-GC=young',), ('--disable-bopt',)))),
    'P17': both(locks.check, lox_property([('@threads', 1), ('@mutexes', 2)], 300, optsets=((), ()))),
    'P18': lox_property([('@procs', 1)], 700),
    'P20': lox_property([('@files', 1)], 450),
    'P23': lox_property([('@scripts', 1)], 900),
    'P25': lox_property([('@procs', 2), ('exc', 1)], 600),
    'P29': lox_property([('const', 2), ('@consts', 3), ('@reopen', 2)], 900),
}
