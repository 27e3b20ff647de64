"""Which contract modules carry goals of which property."""
import importlib

MODULES = {
    'mh': ('C01', 'C03', 'C04', 'C05', 'C06'),
    'gibbs': ('C02', 'C04', 'C05', 'C06'),
    'mathutil': ('C07', 'C08'),
    'driver': ('C14',),
    'co_driver': ('C15',),
    'chain_driver': ('C16', 'C17'),
    'evaluators': ('C18',),
    'graphs': ('C19',),
    'encode': ('C19',),
    'saver': ('C20',),
    'training': ('C21',),
    'settings': ('C22',),
    'initial': ('C13',),
    'neural': ('C09', 'C10', 'C13', 'C17'),
    'models': ('C09', 'C10', 'C11', 'C12'),
}
INFO = {}


def obligations(prop, tier):
  out = []
  for m, ps in MODULES.items():
    if prop not in ps:
      continue
    mod = importlib.import_module(m)
    for o in mod.obligations(tier):
      if prop in (o.props or ps):
        out.append(o)
  return out
