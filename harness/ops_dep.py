"""Dependency patterns: matching, features, matrices, pattern files."""
import os
from xml.sax.saxutils import escape, quoteattr

from harness import sched
from harness.canon import Bad, matrix, num, text, texts
from harness.ops_pipe import base_settings, schedule_of, select, write_corpus
from harness.rx import to_regex


def rx(c):
    return to_regex(c['pat'], c['grp'])


def attrs_of(con):
    return {k['n']: rx(k['c']) for k in con}


# --------------------------------------------------------------------------
# building patterns, macros, sentences
# --------------------------------------------------------------------------

def api_pattern(p):
    from nephosem import PatternGraph
    nodes = {n['id']: attrs_of(n['con']) for n in p['nodes']}
    edges = {(e['h'], e['d']): attrs_of(e['con']) for e in p['edges']}
    return PatternGraph(nodes, edges)


def graphml(pats, keys, ids, decorate=0):
    """keys: [for, name, has default, default regex]"""
    out = ['<?xml version="1.0" encoding="UTF-8"?>'] if decorate & 1 else []
    out.append('<graphml xmlns="http://graphml.graphdrawing.org/xmlns"\n'
               '      xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance"\n'
               '      xsi:schemaLocation="http://graphml.graphdrawing.org/xmlns\n'
               '        http://graphml.graphdrawing.org/xmlns/1.0/graphml.xsd">')
    kid = {}
    for i, (what, name, hasdef, default) in enumerate(keys):
        kid[(what, name)] = 'k%d' % i
        s = '    <key id="k%d" for="%s" attr.name=%s attr.type="string"' % (i, what, quoteattr(name))
        out.append(s + ('>\n        <default>%s</default>\n    </key>' % escape(default) if hasdef else '/>'))
    for p, gid in zip(pats, ids):
        if decorate & 2:
            out.append('    <!-- pattern %s -->' % gid)
        out.append('    <graph id="%s" edgedefault="directed">' % gid)
        ind = '        '
        parts = []
        for n in p['nodes']:
            data = ''.join('\n%s    <data key="%s">%s</data>' % (ind, kid[('node', k['n'])], escape(rx(k['c']))) for k in n['con'])
            parts.append('%s<node id="%d">%s</node>' % (ind, n['id'], data + '\n' + ind if data else ''))
        for e in p['edges']:
            data = ''.join('\n%s    <data key="%s">%s</data>' % (ind, kid[('edge', k['n'])], escape(rx(k['c']))) for k in e['con'])
            parts.append('%s<edge source="%d" target="%d">%s</edge>' % (ind, e['h'], e['d'], data + '\n' + ind if data else ''))
        out += parts
        out.append('    </graph>')
        if decorate & 4:
            out.append('')
    out.append('</graphml>')
    return '\n'.join(out) + '\n'


def macro_xml(macs, ids, desc=True):
    tf, ff, ef = macs[0]['tf'], macs[0]['ff'], macs[0]['ef']

    def fmt(f):
        return ('            <node-fmt>\n' + ''.join('                <%s group="%d"/>\n' % (a, g) for a, g in f)
                + '                <string connector="/">%s</string>\n            </node-fmt>' % '/'.join(a for a, g in f))
    out = ['<?xml version="1.0" encoding="UTF-8"?>', '<target-feature-list>',
           '    <target-fmt>', fmt(tf), '    </target-fmt>', '    <feature-fmt>', fmt(ff),
           '        <edge-fmt>%s</edge-fmt>' % ef[0][0], '    </feature-fmt>']
    for m, i in zip(macs, ids):
        d = m.get('desc', 'x') if desc else None
        out.append('    <target-feature-macro id="%d">' % i)
        out.append('        <sub-graph-pattern id="%d"/>' % m['patid'])
        one = '' if d is None else '\n            <description>%s</description>\n        ' % d
        out.append('        <target nodeID="%d">%s</target>' % (m['t'], one))
        out.append('        <feature%s>%s</feature>' % ('' if m['f'] == -1 else ' featureID="%d"' % m['f'], one))
        out.append('    </target-feature-macro>')
    out.append('</target-feature-list>')
    return '\n'.join(out) + '\n'


def build_macros(case, d):
    from nephosem import MacroGraph, PatternGraph
    if case.get('via') == 'files':
        keys, seen = [], set()
        for p in case['pats']:
            for what, xs in (('node', p['nodes']), ('edge', p['edges'])):
                for x in xs:
                    for k in x['con']:
                        if (what, k['n']) not in seen:
                            seen.add((what, k['n']))
                            keys.append([what, k['n'], False, ''])
        g, x = os.path.join(d, 'p.graphml'), os.path.join(d, 'm.xml')
        ids = [10 + i for i in range(len(case['pats']))]
        with open(g, 'w') as f:
            f.write(graphml(case['pats'], keys, ids))
        with open(x, 'w') as f:
            f.write(macro_xml([dict(m, patid=9 + m['pat']) for m in case['macs']], list(range(1, 1 + len(case['macs'])))))
        return MacroGraph.read_xml(x, PatternGraph.read_graphml(g))
    pats = [api_pattern(p) for p in case['pats']]
    out = []
    for i, m in enumerate(case['macs']):
        mg = MacroGraph(pats[m['pat'] - 1], target_idx=m['t'], feature_idx=m['f'])
        mg.id = case['mids'][i] if 'mids' in case else i + 1
        mg.target_node_attrs = {a: g for a, g in m['tf']}
        mg.feature_node_attrs = {a: g for a, g in m['ff']}
        mg.feature_edge_attrs = {a: g for a, g in m['ef']}
        out.append(mg)
    return out


def dep_settings(case, d):
    c = case['layout']
    s = base_settings(dict(case, ncol=len(c['cols']), cols=c['cols'], type=c['type'], colloc=c['type'], token=c['type'],
                           sep=c['sep']), d)
    s['token'] = '/'.join(c['type']) + ('/FID/LID' if c.get('upper') else '/fid/lid')
    if c.get('global'):
        s['global-columns'] = ','.join(c['cols'])
    s['node-attr'] = ','.join(c['na'])
    s['edge-attr'] = ','.join(c['ea'])
    idn, hdn = c['cols'][c['id'] - 1], c['cols'][c['head'] - 1]
    if (idn, hdn) != ('id', 'head') or c.get('named'):
        s['currID'], s['headID'] = idn, hdn
    return s


def sentence(case, s, d):
    from nephosem import SentenceGraph
    if s['how'] == 'graph':
        nodes = {n['id']: {k: v for k, v in n['at']} for n in s['nodes']}
        edges = {(e['h'], e['d']): {k: v for k, v in e['at']} for e in s['edges']}
        return SentenceGraph(nodes=nodes, edges=edges, mode=case['mode'], fname=s['fid'])
    from nephosem.core.terms import CorpusFormatter
    fm = CorpusFormatter(dep_settings(case, d))
    return SentenceGraph(sentence=[(s['at'][i], x) for i, x in enumerate(s['lines'])], formatter=fm, mode=case['mode'], fname=s['fid'])


def pairs(at, skip=()):
    return sorted([str(k), str(v)] for k, v in at.items() if k not in skip)


def graph_snap(g):
    return {'nodes': sorted([num(i), pairs(at)] for i, at in g.graph.nodes(data=True)),
            'edges': sorted([num(h), num(t), pairs(at, ('id',))] for h, t, at in g.graph.edges(data=True))}


def found(m, mode):
    out = []
    if len(m.matched_nodes) != len(m.matched_edges):
        raise Bad('%d node matches, %d edge matches' % (len(m.matched_nodes), len(m.matched_edges)))
    for i in range(len(m.matched_nodes)):
        out.append({'n': sorted([num(p), pairs(at)] for p, at in m.matched_nodes[i].items()),
                    'e': sorted([num(h), num(t), pairs(at, ('id',))] for (h, t), at in m.matched_edges[i].items()),
                    't': text(m.target(i, mode=mode)), 'f': text(m.feature(i))})
    return out


def op_match(case, d):
    from nephosem import Vocab
    macs = build_macros(case, d)
    if not case['any']:
        for m in macs:
            m.target_filter = (Vocab({t: 1 for t in case['targets']}) if case.get('filter') == 'vocab'
                               else {t: 1 for t in case['targets']})
    sents = [sentence(case, s, d) for s in case['sents']]
    first = [graph_snap(s) for s in sents]
    steps = []
    for s, m in case['steps']:
        sents[s - 1].match_pattern(macs[m - 1])
        steps.append({'found': [found(x, case['mode']) for x in macs], 'same': [graph_snap(x) == y for x, y in zip(sents, first)]})
    return {'first': first, 'steps': steps, 'pats': [graph_snap(m) for m in macs]}


def op_depmx(case, d):
    from nephosem import Vocab
    from nephosem.models.deprel import DepRelHandler
    paths = write_corpus(case, d)
    os.makedirs(os.path.join(d, 'out'), exist_ok=True)
    s = dep_settings(case, d)
    macs = build_macros(case, d)
    targets = None if case['any'] else (list(case['targets']) if case.get('filter') == 'list'
                                        else Vocab({t: 3 for t in case['targets']}))
    h = DepRelHandler(s, workers=case['workers'], targets=targets, mode=case['mode'])
    h.read_templates(macros=macs)
    out = []
    for sel in case['sels']:
        fn = select(dict(case, sel=sel), d, paths)
        plan = case.get('plan')
        try:
            if plan:
                pl = sched.planned({'assign': [x - 1 for x in plan['assign']], 'exit': [x - 1 for x in plan['exit']]})
                with pl:
                    m = h.build_dependency(fn)
            else:
                m = h.build_dependency(fn)
        except ValueError:
            # nothing found: there is no matrix
            out.append({'none': True, 'rows': [], 'cols': [], 'cells': []})
            continue
        mm = matrix(m)
        out.append({'none': False, 'rows': mm['rows'], 'cols': mm['cols'], 'cells': mm['cells']})
    return out


# --------------------------------------------------------------------------
# pattern files, macro files, arrow expressions
# --------------------------------------------------------------------------

def pattern_doc(doc, style):
    """the text of a pattern document; style: nl, comments, order, cdata"""
    nl = {'nice': '\n', 'tight': '', 'crlf': '\r\n'}[style['nl']]
    ind = '    ' if style['nl'] != 'tight' else ''

    def esc(t):
        return '<![CDATA[%s]]>' % t if style['cdata'] and t else escape(t)

    def data(kids, what):
        return ''.join('<data key="%s">%s</data>' % (kid[(what, n)], esc(t)) for n, t in kids)
    out = ['<?xml version="1.0" encoding="UTF-8"?>'] if style['head'] else []
    out.append('<graphml xmlns="http://graphml.graphdrawing.org/xmlns">')
    kid = {}
    for i, k in enumerate(doc['keys']):
        kid[(k['what'], k['name'])] = 'k%d' % i
        out.append(ind + '<key id="k%d" for="%s" attr.name=%s attr.type="string"' % (i, k['what'], quoteattr(k['name']))
                   + ('>%s<default>%s</default>%s</key>' % (nl, esc(k['val']), nl) if k['has'] else '/>'))
    for g in doc['graphs']:
        if style['comments']:
            out.append('<!-- pattern')
            out.append('<graph id="99" edgedefault="directed"><node id="1"/></graph>')
            out.append('-->')
        out.append(ind + '<graph id="%d" edgedefault="directed">' % g['id'])
        es = [2 * ind + '<edge %ssource="%d" target="%d">%s</edge>' % ('id="e%d" ' % j if style['eids'] else '', e['h'], e['d'], data(e['data'], 'edge'))
              for j, e in enumerate(g['edges'])]
        ns = [2 * ind + ('<node id="%d">%s</node>' % (n['id'], data(n['data'], 'node')) if n['data'] or not style['short'] else '<node id="%d"/>' % n['id'])
              for n in g['nodes']]
        out += ns + es
        out.append(ind + '</graph>')
    out.append('</graphml>')
    return nl.join(out) + ('\n' if style['end'] else '')


def macro_doc(doc, style):
    def fmt(f):
        return '<node-fmt>%s<string connector="%s">%s</string></node-fmt>' % (
            ''.join('<%s group="%d"/>' % (a, g) for a, g in sorted(f)), doc['con'], doc['con'].join(a for a, _ in f))
    nl = {'nice': '\n', 'tight': '', 'crlf': '\r\n'}[style['nl']]

    def desc(t):
        return '' if t is None else '<description>%s</description>' % escape(t)
    out = ['<?xml version="1.0" encoding="UTF-8"?>'] if style['head'] else []
    out += ['<target-feature-list>', '<target-fmt>' + fmt(doc['tf']) + '</target-fmt>',
            '<feature-fmt>' + fmt(doc['ff']) + '<edge-fmt>%s</edge-fmt></feature-fmt>' % doc['ef']]
    for m in doc['macs']:
        if style['comments']:
            out.append('<!-- next -->')
        out += ['<target-feature-macro id="%d">' % m['id'], '<sub-graph-pattern id="%d"/>' % m['pat'],
                '<target nodeID="%d">%s</target>' % (m['t'], desc(m['td'])),
                '<feature%s>%s</feature>' % ('' if m['f'] == -1 else ' featureID="%d"' % m['f'], desc(m['fd'])), '</target-feature-macro>']
    out.append('</target-feature-list>')
    return nl.join(out) + '\n'


def read_graph(g):
    s = graph_snap(g)
    s['chain'] = not g.nonlinear
    return s


def op_patfiles(case, d):
    from nephosem import MacroGraph, PatternGraph
    st = case['style']
    gp, mp = os.path.join(d, 'p.graphml'), os.path.join(d, 'm.xml')
    with open(gp, 'w', encoding='utf-8', newline='') as f:
        f.write(pattern_doc(case['doc'], st))
    with open(mp, 'w', encoding='utf-8', newline='') as f:
        f.write(macro_doc(case['mdoc'], st))
    ps = PatternGraph.read_graphml(gp)
    ms = MacroGraph.read_xml(mp, ps)

    def fmt(a):
        return [[text(k), num(v)] for k, v in a.items()]
    return {'pats': [dict(read_graph(p), id=num(p.id)) for p in ps],
            'macs': [{'g': read_graph(m), 'id': num(m.id), 't': num(m.target_idx), 'f': num(m.feature_idx), 'tf': fmt(m.target_node_attrs),
                      'ff': fmt(m.feature_node_attrs), 'ef': fmt(m.feature_edge_attrs)} for m in ms]}


def op_arrows(case, d):
    from nephosem.specutils.deputils import parse_pattern
    out = []
    for e in case['exprs']:
        ns, es = parse_pattern(e['target'], e['text'])
        out.append({'nodes': [[num(k), text(v)] for k, v in ns.items()], 'edges': [[num(h), num(t), text(v)] for (h, t), v in es.items()]})
    return out


def op_sheet(case, d):
    from nephosem import MacroGraph, PatternGraph
    cols = case['cols']
    path = os.path.join(d, 'p.tsv')
    with open(path, 'w', encoding='utf-8') as f:
        f.write(case['sep'].join(cols) + '\n')
        for i, e in enumerate(case['exprs']):
            row = {case['tcol']: e['target'], case['fcol']: e['text']}
            f.write(case['sep'].join(row.get(c, str(i + 1)) for c in cols) + '\n')
    k = {} if case['plain'] else {'target_colname': case['tcol'], 'feature_colname': case['fcol'], 'sep': case['sep']}
    gs = (MacroGraph if case['macros'] else PatternGraph).read_csv(path, **k)
    return [{'g': read_graph(g), 't': num(g.target_idx) if case['macros'] else 0} for g in gs]


OPS = {'match': op_match, 'depmx': op_depmx, 'patfiles': op_patfiles, 'arrows': op_arrows, 'sheet': op_sheet}
