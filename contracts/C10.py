"""C10  sliding windows are exactly the contiguous windows of the series"""
import numpy as np
from . import common as cm
from .asked import h_asked_samples

MODULES = ['spta.util.arrays', 'spta.classifier.sliding_window']


def h_windows(H):
    """window p is series[p*stride : p*stride + w], for every p with p*stride + w <= n, in order"""
    arrays = H.load('spta.util.arrays')
    n = H.size('n', 1, 14)
    w = H.int('w', 1, n)
    stride = H.int('stride', 1, None, 5)
    s = H.array('s', (n,))
    wins = arrays.sliding_window(s, w, stride)
    m = H.div(n - w, stride) + 1
    H.check('number of windows', H.eq(H.len(wins), m))
    H.forall('window contents', [m, w], lambda p, j: H.eq(wins[p][j], s[p * stride + j]))
    H.check('window length', H.eq(H.len(wins[0]), w))


def h_windows_default(H):
    """without a stride every start is taken"""
    arrays = H.load('spta.util.arrays')
    n = H.size('n', 1, 14)
    w = H.int('w', 1, n)
    s = H.array('s', (n,))
    wins = arrays.sliding_window(s, w)
    H.check('number of windows', H.eq(H.len(wins), n - w + 1))
    H.forall('window contents', [n - w + 1, w], lambda p, j: H.eq(wins[p][j], s[p + j]))


def h_too_long(H):
    """a window longer than the series yields nothing"""
    arrays = H.load('spta.util.arrays')
    n = H.size('n', 1, 8)
    s = H.array('s', (n,))
    over = H.int('over', 1, None, 4)
    stride = H.int('stride', 1, None, 4)
    H.check('nothing', H.eq(H.len(arrays.sliding_window(s, n + over, stride)), 0))


def h_labelled(H):
    """labelled windows: the windows of each series, in order, with the label of their series"""
    H.concrete_only('pandas')
    import pandas as pd
    sw = H.load('spta.classifier.sliding_window')
    t, n = H.size('tuples', 1, 5), H.size('n', 1, 9)
    w = H.int('w', 1, n)
    data = H.array('data', (t, n))
    labels = H.array('labels', (t,), 'i', 0, 3)
    df = pd.DataFrame(data, columns=['s%d' % i for i in range(n)])
    df.insert(0, 'label', labels)
    out = sw.apply_sliding_window_to_labeled_series(df, w)
    want = [(labels[k], o, data[k, o:o + w]) for k in range(t) for o in range(n - w + 1)]
    H.check('number of labelled windows', len(out) == len(want), '%d for %d' % (len(out), len(want)))
    for r, (lab, off, win) in enumerate(want):
        row = out.iloc[r]
        H.check('label of the series', row['label'] == lab)
        H.check('offset', row['offset'] == off)
        H.check('window', H.eq(np.asarray(row['window']), win))


h_history = cm.history(h_asked_samples)


SPEC = [
    (h_windows, {'sym': True, 'runs': 1500}),
    (h_windows_default, {'sym': True, 'runs': 500}),
    (h_too_long, {'sym': True, 'runs': 300}),
    (h_labelled, {'runs': 60, 'why': 'pandas melt and rolling are outside the numpy model'}),
    (h_history, {'sym': True, 'runs': 100}),
]
