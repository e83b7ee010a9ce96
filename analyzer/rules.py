"""Registry of the rules, one per property."""
RULES, DOC, ASSUME = {}, {}, {}


def rule(pid, doc, assume=()):
    def d(f):
        RULES[pid] = f
        DOC[pid] = doc
        ASSUME[pid] = list(assume)
        return f
    return d


import importlib
for _m in ('r_codec', 'r_envelope', 'r_router', 'r_server', 'r_client', 'r_pool', 'r_misc', 'r_unsafe', 'r_errors', 'r_panic', 'r_config', 'r_entry'):
    try:
        importlib.import_module(_m)
    except ModuleNotFoundError as e:
        if e.name != _m:
            raise
