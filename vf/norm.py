"""From a raw simulator trace to the input of ProxyTrace."""


def proxy(tr):
    cfg = tr['cfg']
    n = int(cfg.get('n', '1') or 1)
    ev = []
    for e in tr['ev']:
        e = dict(e)
        if e['e'] == 'tick':
            # time that passes while everything is at rest
            e['calm'] = 1 if ev and (ev[-1]['e'] == 'Q' or ev[-1].get('calm')) else 0
        e.pop('d', None)
        if e['e'] in ('crash', 'hang'):
            e = {'e': e['e']}
        ev.append(e)
    return {'n': max(1, n), 'reg': 1 if cfg.get('reg') else 0, 'pub': 'Y' if cfg.get('pw') == 'PUBLIC' else 'N', 'ev': ev}
