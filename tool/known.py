"""writes lib/known.txt: the functions the rules were written against, which they may take at their word

Run once, by hand, when a check comes to use further units.  A function that is not listed (a helper somebody extracted) has no
meaning of its own to a rule: it is always looked into, whatever the rule leaves closed.
"""
import os, sys, re
sys.path[:0] = [os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib')]
import fx, glob
units = set()
for f in glob.glob(fx.VERIF + '/checks/c*.py'):
    for m in re.findall(r"'([a-z_]+/[A-Za-z/]+\.cpp)'", open(f).read()):
        units.add(m)
units |= {os.path.relpath(p, fx.SRC) for p in glob.glob(fx.SRC + '/core/*.cpp')}
out = set()
for u in sorted(units):
    if not os.path.exists(fx.SRC + '/' + u):
        continue
    p = fx.load([u])
    out |= {f.n for f in p.funcs.values() if f.file.startswith(fx.REPO + '/src') and not f.d.get('lambda')}
with open(fx.VERIF + '/lib/known.txt', 'w') as fh:
    fh.write('\n'.join(sorted(out)) + '\n')
print(len(out))
