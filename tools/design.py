"""Writes the generated part of DESIGN.md (below '## Properties').

    python3 tools/design.py

Everything is taken from properties.jsonl, MANIFEST.json, the RULE and
ASSUMPTIONS of the check modules, seeded/*/meta.json and known_findings.txt;
NOTES below adds what only a person knows: bounds and limits. No check uses
this file."""
import ast
import json
import os
import textwrap

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

NOTES = {
    'P01': 'Arrays whose space is unknown (results of unmodelled calls) are '
           'counted as undetermined. Catalog(data=...) joins lose their '
           'space.',
    'P02': 'Judged after every calculate() configuration and again after '
           'every public accessor.',
    'P03': 'The normal form tolerates any spelling of magnitudes >= mc - '
           'delta_m/2; a mask built by an unmodelled function is '
           'undetermined.',
    'P04': 'Aliases are tracked through views, columns, slices, asarray, '
           'lists and attributes. Writes by external code beyond the model '
           '(out=, inplace=, known mutators) would be missed.',
    'P05': 'Covers module globals, class attributes, mutable defaults, '
           "matplotlib/pandas/numpy global settings and the package's own "
           'options.',
    'P06': 'Runs with warnings on and off are compared term by term; '
           'warnings must be guarded by the option on every path.',
    'P07': 'None, 0 and an arbitrary value are three runs of one '
           'configuration; only observably equal None/0 runs are reported.',
    'P08': 'A division is reported only if the divisor is certainly zero.',
    'P09': 'Where units cannot be inferred (data frames read from outside) '
           'nothing is reported. A literal 2.302585 is accepted as ln 10.',
    'P10': 'About 1300 configurations; only errors that are certain on their '
           'path are reported.',
    'P11': 'A calculate() that raises may leave the previous value: no claim.',
    'P12': 'Only the invalid inputs in the table INVALID of p_invalid.py, '
           'which come from the docstrings.',
    'P13': 'include_all_magnitudes is only a request parameter; no claim on '
           'its effect.',
    'P14': 'GRRateGrid.merge and the name of concatenated grids are not '
           'claimed (see "No claim").',
    'P15': 'Method bodies are read; what pandas itself reads is not '
           'followed.',
    'P16': 'Values a QuakeML document has no place for (lower/upper '
           'uncertainties, extra columns) are not claimed.',
    'P17': 'Text cells are symbols with every markup character.',
    'P18': 'Documents are event sequences with split character chunks, '
           'unknown elements, namespaces and several origins/magnitudes.',
    'P19': 'Batches up to a bounded number are unrolled symbolically; '
           'sub-second request times and the client time zone are no claim.',
    'P20': 'pyproj is an uninterpreted pair of inverse functions.',
    'P21': 'BMorePositive.std uses a fresh generator by design: not claimed.',
    'P22': 'Lookups whose container kind is unknown are undetermined.',
    'P23': 'groupby/agg/concat are summarised, not executed.',
    'P24': 'Colours, legends and styles are not claimed.',
    'P25': 'get_fmd, maxc and the plots of an empty catalog raise: not '
           'claimed; Lilliefors needs three events.',
    'P26': 'Ties in the sort key are not ordered.',
    'P28': 'Formulas are compared as normal forms over the reals: floating '
           'point cancellation is outside. The a-value of Kijko-Smit is '
           'accepted with and without the half bin.',
    'P29': 'Products of shifted terms are unknown and never reported.',
    'P30': 'The published window formulas are the oracle; the cluster loop '
           'is summarised once per main shock.',
    'P31': 'Real arithmetic with a noise tolerance of 1e-12 below the half.',
    'P32': 'Only the law of the transformation of standard draws; not the '
           'quality of the generator.',
    'P33': 'Calibration of the p-values is N05.',
    'P34': 'The estimators and the KS test are opaque marks here.',
}


def module(name):
    tree = ast.parse(open(os.path.join(HERE, 'sa', 'checks',
                                       name + '.py')).read())
    out = {'doc': ast.get_docstring(tree)}
    for n in tree.body:
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and \
                getattr(n.targets[0], 'id', '') in ('RULE', 'ASSUMPTIONS'):
            try:
                out[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    return out


def wrap(s, pre='', hang='  '):
    return '\n'.join(textwrap.wrap(s, 78, initial_indent=pre,
                                   subsequent_indent=hang,
                                   break_long_words=False,
                                   break_on_hyphens=False))


def main():
    props = [json.loads(x) for x in open(os.path.join(
        HERE, 'properties.jsonl'))]
    man = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
    tech = {c['property']: c['technique'] for c in man['checks']}
    na = {c['property']: c['reason'] for c in man['not_applicable']}
    idx = json.load(open(os.path.join(HERE, 'sa', 'checks', 'index.json')))
    seeds = {}
    sd = os.path.join(HERE, 'seeded')
    for d in sorted(os.listdir(sd)):
        m = json.load(open(os.path.join(sd, d, 'meta.json')))
        seeds.setdefault(m['property'], []).append((d, m))
    fixed = {}
    for x in open(os.path.join(HERE, 'known_findings.txt')):
        if x.startswith('fixed: property='):
            p, h, what = x[len('fixed: property='):].strip().split(' ', 2)
            fixed.setdefault(p, []).append((h, what))
    out = ['## Properties', '']
    out.append(wrap('Generated by tools/design.py. "Decided by" is the rule '
                    'the check applies, "Beyond tests" why the existing tests '
                    'cannot settle it.', '', ''))
    for p in props:
        i = p['id']
        if i in na:
            continue
        mo = module(idx[i])
        rule = mo.get('RULE', '')
        if isinstance(rule, dict):
            rule = rule[i]
        ass = mo.get('ASSUMPTIONS', [])
        if isinstance(ass, dict):
            ass = ass.get(i, [])
        out += ['', f'### {i} {p["title"]}', '']
        out.append(wrap(f'Decided by (`sa/checks/{idx[i]}.py`; {tech[i]}): '
                        + rule + '.', '- '))
        out.append(wrap('Quantifies over: ' + p['quantifier']['text'] + '.',
                        '- '))
        if ass:
            out.append(wrap('Assumes: ' + '; '.join(ass) + '.', '- '))
        if i in NOTES:
            out.append(wrap('Bounds and limits: ' + NOTES[i], '- '))
        out.append(wrap('Beyond tests: ' + p['why_tests_cant'], '- '))
        for h, what in fixed.get(i, ()):
            out.append(wrap(f'Defect found and repaired ({h}): {what}.',
                            '- '))
        for d, m in seeds.get(i, ()):
            out.append(wrap(f'Planted {d} (caught): {m["what_it_breaks"]}; '
                            f'needs {m["needs"]}.', '- '))
    out += ['', '## Not applicable', '']
    for p in props:
        if p['id'] in na:
            out.append(wrap(f'**{p["id"]} {p["title"]}**: {na[p["id"]]}.',
                            '- '))
    path = os.path.join(HERE, 'DESIGN.md')
    s = open(path).read()
    s = s[:s.index('## Properties')]
    open(path, 'w').write(s + '\n'.join(out) + '\n')


if __name__ == '__main__':
    main()
