"""Random station tables in every form a user may give them."""
import os

import numpy as np
import pandas as pd

COLS = ['SN', 'network', 'station', 'location', 'elevation']


def code(rng, n, blank=0.0):
    if rng.random() < blank:
        return ''
    return ''.join(rng.choice(list('ABCDEFGHJKLMNPQRSTUVWXYZ0123456789'), int(rng.integers(1, n + 1))))


def make_table(rng, sns, clash=0.4):
    """rows {SN, network, station, location, elevation}; codes unique per logger, often sharing parts"""
    nets = [code(rng, 2, .3) for _ in range(2)] + ['']
    # 'NA' and numbers are legal codes that careless readers turn into something else
    nets += ['NA'] if rng.random() < .3 else []
    stas = [code(rng, 5) for _ in range(max(2, len(sns) // 2))] + ['007', 'A1', '1E5', 'NAN']
    locs = ['', '00', '01', '1', '0A']
    seen, rows = set(), []
    for SN in sns:
        for _ in range(1000):
            k = (str(rng.choice(nets)), str(rng.choice(stas)), str(rng.choice(locs)))
            if k not in seen:
                break
        seen.add(k)
        rows.append(dict(SN=SN, network=k[0], station=k[1], location=k[2],
                         elevation=None if rng.random() < .2 else round(float(rng.uniform(-50, 5000)), 1)))
    return rows


def give_table(rng, rows, folder, name='station_info.csv', abbreviate=True):
    """-> (argument for gemlog, rows as they are to be understood, description)"""
    rows = [dict(r) for r in rows]
    how = ['header', 'header', 'noheader4', 'noheader5', 'frame'][int(rng.integers(5))]
    cols = list(COLS)
    if how == 'noheader4':
        cols = COLS[:4]
    elif how != 'noheader5':
        drop = [c for c in ('network', 'location', 'elevation') if rng.random() < .25]
        for r in rows:
            for c in drop:
                r[c] = None if c == 'elevation' else ''
        keys = [(r['network'], r['station'], r['location']) for r in rows]
        if len(set(keys)) < len(keys):          # dropping a column must not make codes ambiguous
            for i, r in enumerate(rows):
                r['station'] = 'S%03d' % i
        cols = [c for c in COLS if c not in drop]
        cols = [cols[i] for i in rng.permutation(len(cols))]
    if 'elevation' not in cols:
        for r in rows:
            r['elevation'] = None
    style = [str.lower, str.upper, str.capitalize, lambda s: s][int(rng.integers(4))]
    if how == 'frame':
        blank = np.nan if rng.random() < .5 else ''         # as pandas reads an empty field by default, or not
        if rng.random() < .25 and abbreviate:
            style = lambda s: s[:4].lower() if s == 'elevation' else s[:3].lower()       # abbreviated
        df = pd.DataFrame([[np.nan if r[c] is None else blank if r[c] == '' else r[c] for c in cols] for r in rows],
                          columns=[c if c == 'SN' and rng.random() < .5 else style(c) for c in cols])
        if rng.random() < .5:                   # a filtered, reordered table
            df.index = rng.permutation(len(df)) + int(rng.integers(3))
        return df, rows, 'frame' + ''.join(c[0] for c in cols)
    lines = [','.join(style(c) for c in cols)] if how == 'header' else []
    for r in rows:
        lines.append(','.join('' if r[c] is None else str(r[c]) for c in cols))
    p = os.path.join(folder, name)
    with open(p, 'w') as f:
        f.write('\n'.join(lines) + ('\n' if rng.random() < .8 else ''))
    return p, rows, how + ''.join(c[0] for c in cols)
