"""Reference of the SMEFTsim parameter cards: which parameter SMEFTsim reads at
which position (smeftsim.json: model set -> [block, position, label]), and
which Wilson coefficient of the Warsaw mass basis a label stands for."""
import json
import os
import re

LABELS = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'smeftsim.json')))

BASE = {'HBox': 'phiBox', 'Hbox': 'phiBox', 'HDD': 'phiD', 'H': 'phi', 'G': 'G', 'W': 'W', 'Gtil': 'Gtilde',
        'Wtil': 'Wtilde', 'HG': 'phiG', 'HW': 'phiW', 'HB': 'phiB', 'HWB': 'phiWB', 'HGtil': 'phiGtilde',
        'HWtil': 'phiWtilde', 'HBtil': 'phiBtilde', 'HWBtil': 'phiWtildeB',
        'eH': 'ephi', 'uH': 'uphi', 'dH': 'dphi', 'HL3': 'phil3', 'HQ3': 'phiq3', 'QQ3': 'qq3', 'LQ3': 'lq3',
        'UD8': 'ud8', 'QU8': 'qu8', 'QD8': 'qd8', 'QUQD8': 'quqd8', 'LeQu3': 'lequ3'}
for _x in 'l1 l3 e q1 q3 u d ud'.split():
    BASE['H' + _x] = 'phi' + _x
for _x in ('ll qq1 qq3 uu dd ee lq1 lq3 eu ed ud1 ud8 le lu ld qe qu1 qd1 qu8 qd8 ledq quqd1 quqd8 lequ1 lequ3 '
           'eW eB uG uW uB dG dW dB').split():
    BASE[_x] = _x

# flavour structures SMEFTsim names differently from WCxf (operators with
# symmetric currents)
SYMMETRIC = {'3323': '2333'}


def meaning(label):
    """(part, coefficient): part 're' (value), 'abs' (modulus) or 'ph' (phase)."""
    m = re.match(r'c(\w+?)(Ph|Abs)?(\d[\dx]*)?$', label)
    b, part, ix = m.groups()
    if b not in BASE:       # names ending in a digit
        for n in (1, 2):
            if ix and b + ix[:n] in BASE:
                b, ix = b + ix[:n], ix[n:]
                break
    op = BASE[b]
    ix = (ix or '').replace('x', '')
    if op in ('ll', 'qq1', 'qq3', 'uu', 'dd', 'ee'):
        ix = SYMMETRIC.get(ix, ix)
    if op == 'ee' and ix == '1322':
        ix = '1223'
    return part, (op + '_' + ix if ix else op)


def rows(model_set):
    """{(block, position): (part, coefficient, label)}; None for the cut-off scale."""
    r = {}
    phased = {meaning(l)[1] for _, _, l in LABELS[model_set] if not l.startswith('Lambda') and meaning(l)[0] == 'Ph'}
    for block, pos, label in LABELS[model_set]:
        if label.startswith('Lambda'):
            r[block, tuple(pos)] = ('scale', None, label)
            continue
        part, k = meaning(label)
        p = 'ph' if part == 'Ph' else 'abs' if k in phased else 're'
        r[block, tuple(pos)] = (p, k, label)
    return r


MW = {'A': ('FRBlock', (1475,), 80.387)}
