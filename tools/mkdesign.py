"""Fills the tables of DESIGN.md (repairs, planted bugs) and the fixed entries of known_findings.json."""
import glob, json, os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = {  # subject of the fix commit (start) -> properties
    'phonon rates between degenerate': 'C10 C19', 'thresholds of the RTD': 'C05 C10',
    'too few spectral densities': 'C21', 'exceptions in the integrals': 'C21', 'change() restores the Ham': 'C21',
    'report a failure when': 'C21', 'polygamma for': 'C16', 'overflow guards': 'C16',
    'accept compiled Approach': 'C13', 'real matrix types': 'C10', 'currents of the matrix-free': 'C06',
    'generate_vec returns': 'C06', 'pyRTD without': 'C05', 'state indexing of systems': 'C15',
    'removal of coherences in': 'C13', 'reject normalisation rows': 'C21', 'switching between approach': 'C14',
    'gain term of the phonon': 'C05 C19', 'validate itype, mfreeq': 'C21', 'accept an Approach class': 'C13',
    'repeated removal of Fock': 'C14', 'RTD with removed states': 'C05 C14', 'prepare the approach again': 'C12',
    'switching mfreeq or': 'C13', 'remove_coherences drops': 'C14', 'do not modify the list': 'C20',
    'accept Coulomb matrix': 'C11', 'keep the single-particle': 'C12', 'let change() set': 'C12',
    'density-matrix accessors': 'C20', 'compare the symmetry flag': 'C11'}


def fixes():
    log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s', '--grep=^fix:'], stdout=subprocess.PIPE,
                         text=True).stdout.splitlines()
    for line in log:
        h, s = line.split(' ', 1)
        s = s[len('fix: '):]
        p = [v for k, v in PROPS.items() if s.startswith(k)]
        if len(p) != 1:
            raise SystemExit('no property for: ' + s)
        yield h, s, p[0].split()


def main():
    fx = list(fixes())
    path = os.path.join(V, 'known_findings.json')
    known = [k for k in json.load(open(path)) if k['status'] == 'open']
    for h, s, props in fx:
        for p in props:
            known.append(dict(id='%s-fixed-%s' % (p, h), property=p, status='fixed', commit=h,
                              what='fixed: property=%s %s %s' % (p, h, s)))
    open(path, 'w').write(json.dumps(known, indent=1)+'\n')
    rows = ['| commit | property | repaired |', '|---|---|---|']
    rows += ['| %s | %s | %s |' % (h, ', '.join(p), s) for h, s, p in fx]
    bugs = ['| bug | property | needs | caught by |', '|---|---|---|---|']
    caught = json.load(open(os.path.join(V, 'tools', 'caught.json')))
    for d in sorted(glob.glob(os.path.join(V, 'seeded', '*'))):
        b = os.path.basename(d)
        m = json.load(open(os.path.join(d, 'meta.json')))
        bugs.append('| %s | %s | %s | %s |' % (b, m['property'], m['needs'].replace('|', '/'), caught.get(b, '?')))
    path = os.path.join(V, 'DESIGN.md')
    text = open(path).read()
    for name, r in (('FIXES', rows), ('BUGS', bugs)):
        text = re.sub('<!-- %s -->.*?<!-- /%s -->' % (name, name),
                      lambda _: '<!-- %s -->\n%s\n<!-- /%s -->' % (name, '\n'.join(r), name), text, flags=re.S)
    open(path, 'w').write(text)


if __name__ == '__main__':
    main()
