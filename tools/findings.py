#!/usr/bin/env python3
"""Rewrites the 'fixed:' section of known_findings.txt from the fix: commits of /repo (run by hand, never by a check)."""
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = {
    'cells of 1D Vor': 'C34', '2D Voronoi plots': 'C34', 'every plot is': 'C34', '3D scatter plots': 'C34', 'colors of scatter': 'C34', 'projected scatter': 'C34', 'labels of scatter': 'C34', 'output samples are plotted': 'C34', 'scatter plots': 'C34', 'plots are saved with': 'C34', 'data domain plots': 'C34', 'marginal densities are plotted': 'C34', 'marginal surface': 'C34', 'marginal density plots': 'C34', 'cells of 2D Vor': 'C34',
    'normalize_domain no longer works': 'C10', 'normalize_domain also scales': 'C10', 'changing the values': 'C09', 'set_error_id_local': 'C06',
    'discretization.local_to_global': 'C06', 'prob_on_emulated_samples uses': 'C02', 'replacing a sample set': 'C09', 'equality of': 'C14',
    'rectangle and ball queries': 'C11', 'exact_volume_1D': 'C12', 'radius estimates': 'C12', 'pdf of a Voronoi measure is': 'C27',
    'marginal pdf of a Voronoi': 'C27', 'clip also': 'C13', 'discretizations without emulated': 'C13', 'only one process writes': 'C08',
    'load_object finds': 'C07', 'load_object_parallel counts': 'C08', 'prob without globalize': 'C09', 'transfers of prob': 'C03',
    'cell connectivity': 'C29', 'cleaned single': 'C32', 'domains may be': 'C32', 'arrays of all types': 'C32', 'the serial communicator': 'C31', 'model errors of integer': 'C29', 'neighbors of cells': 'C29', 'model error of a region': 'C29', 'chooseOptQoIs_verbose': 'C18',
    'find_good_sets': 'C18', 'set_domain rejects': 'C15', 'check_nums also': 'C15', 'exact volumes of rectangles': 'C12', 'clip works': 'C13', 'radial basis kernels': 'C16', 'rbf gradients': 'C16', 'calculate_gradients_cfd': 'C16', 'clean_data does': 'C30', 'calculate_avg_condnum': 'C18', 'piecewise linear surr': 'C19', 'sort_by_rho is not': 'C20', 'sample_prob works': 'C20', 'smoothing of marg': 'C21', 'all processes share one Latin': 'C22', 'models are evaluated at': 'C23', 'cells of a normal part': 'C24', 'normal distributions for data arrays': 'C24', 'rectangle sizes may': 'C24', 'simple functions reset': 'C24', 'density estimates of a single': 'C25', 'density-based inversion with': 'C25', 'pooled updates': 'C25', 'rejection sampling resp': 'C25', 'fitted distributions': 'C25', 'densities of mixtures': 'C27', 'updated measures are': 'C26', 'samples of updated': 'C26', 'total variation': 'C28', 'comparison points are': 'C28', 'distances do not depend': 'C28', 'marginals are compared': 'C28',
    'normal partitions work for': 'C24', 'estimate_local_volume handles': 'C12', 'check_inputs takes': 'C24', "integrated marginal distances": 'C28', 'setting or appending values': 'C23', 'setting per-sample data': 'C09', 'local densities refer': 'C27', 'estimate_local_volume does': 'C09', 'skewness of sets with a zero gradient': 'C18', 'sampling error bounds of contour': 'C29', 'distances between measures follow': 'C28',
}


def main():
    path = os.path.join(HERE, 'known_findings.txt')
    keep = []
    if os.path.exists(path):
        keep = [l for l in open(path).read().splitlines() if l.startswith('KNOWN ')]
    log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], text=True).splitlines()
    out = ['# Genuine defects of UT-CHG/BET found by these checks.',
           '# "fixed:" entries are repaired by a commit in /repo and suppress nothing.',
           '# "KNOWN property=<id> key=<history> :: <what fails>" entries are recorded, not repaired; they suppress exactly that history.']
    for l in log:
        h, s = l.split(' ', 1)
        if not s.startswith('fix: '):
            continue
        p = [v for k, v in PROP.items() if s[5:].startswith(k)]
        assert len(p) == 1, (s, p)
        out.append('fixed: property=%s %s %s' % (p[0], h, s[5:]))
    with open(path, 'w') as f:
        f.write('\n'.join(out + keep) + '\n')


if __name__ == '__main__':
    main()
