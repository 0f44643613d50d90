MX, MD, MO = 'xigt/mixins.py', 'xigt/metadata.py', 'xigt/model.py'

seed('metachild-type', 'C02', MD, [("        XigtContainerMixin.__init__(self, contained_type=MetaChild)\n        XigtAttributeMixin.__init__(\n            self, id=id, type=type, attributes=attributes,\n            namespace=namespace, nsmap=nsmap\n        )\n\n        self._parent = metadata",
     "        XigtContainerMixin.__init__(self)\n        XigtAttributeMixin.__init__(\n            self, id=id, type=type, attributes=attributes,\n            namespace=namespace, nsmap=nsmap\n        )\n\n        self._parent = metadata")],
     'an object of another kind is added to a Meta',
     'Meta objects accept members of any kind',
     '''
from xigt.errors import XigtStructureError
m = Meta(id='m', children=[MetaChild('c')])
try:
    m.append(Item(id='i'))
except XigtStructureError:
    pass
else:
    raise SystemExit('accepted')
''')

seed('eq-prefix', 'C04', MX, [("                and len(self) == len(other)\n", "")],
     'two containers of which one is a prefix of the other',
     'containers of different length compare equal',
     '''
a = Tier(id='t', items=[Item(id='a'), Item(id='b')])
b = Tier(id='t', items=[Item(id='a')])
assert a != b and b != a
assert Tier(id='t') != b
assert Tier(id='t', items=[Item(id='a')]) == b
''')

seed('empty-id', 'C05', MX, [("if value is not None and not id_re.match(value):", "if value and not id_re.match(value):")],
     'the empty string is assigned as an id',
     'an invalid (empty) id is accepted',
     '''
for f in (lambda: Item(id=''), lambda: setattr(Item(id='a'), 'id', '')):
    try:
        f()
    except ValueError:
        pass
    else:
        raise SystemExit('accepted')
''')

seed('empty-nsmap', 'C06', MX, [("        if self._nsmap is None:\n            if _has_parent", "        if not self._nsmap:\n            if _has_parent")],
     'an object with an explicitly empty prefix map inside one that declares prefixes',
     'prefixes that the object does not have are inherited',
     '''
igt = Igt(id='i', nsmap={})
xc = XigtCorpus(igts=[igt], nsmap={'p': 'http://p'})
assert igt.nsmap == {}
t = Igt(id='j')
xc.append(t)
assert t.nsmap == {'p': 'http://p'}
''')

seed('get-any-item-first', 'C07', MO, [("        return self.get(_id, self._itemdict.get(_id, default))",
     "        return self._itemdict.get(_id, self.get(_id, default))")],
     'a tier and an item of the IGT have the same id',
     'get_any prefers the item over the tier',
     '''
igt = Igt(id='i', tiers=[Tier(id='a', items=[Item(id='a'), Item(id='b')])])
assert igt.get_any('a') is igt[0]
assert igt.get_any('b') is igt[0][1]
''')

seed('referrers-substring', 'C08', 'xigt/ref.py', [("            if id in ids(attrget(ra, '')):", "            if id in attrget(ra, ''):")],
     'an id that is a part of another id (w1 and w12)',
     'objects are reported as referrers that do not refer to the object',
     '''
igt = Igt(id='i', tiers=[Tier(id='w', items=[Item(id='w1'), Item(id='w12')]),
                         Tier(id='m', segmentation='w', items=[Item(id='m1', segmentation='w12')])])
assert ref.referrers(igt, 'w1', ['segmentation']) == {'segmentation': []}
assert ref.referrers(igt, 'w12', ['segmentation']) == {'segmentation': ['m1']}
''')

seed('empty-text-value', 'C09', MO, [("        if self.text is not None:\n            return self.text\n        for refattr", "        if self.text:\n            return self.text\n        for refattr")],
     'an item with an empty text and a content reference',
     'an empty text is not taken as the value of the item',
     '''
igt = Igt(id='i', tiers=[Tier(id='p', items=[Item(id='p1', text='abc')]),
                         Tier(id='w', content='p', items=[Item(id='w1', text='', content='p1[0:2]'), Item(id='w2', content='p1[0:2]')])])
assert igt.get_item('w2').value() == 'ab'
assert igt.get_item('w1').value() == ''
''')

seed('compress-last-id', 'C10', 'xigt/ref.py', [("            last_id = _id\n        else:\n            last_id = None\n", "            last_id = _id\n")],
     'a selection without a span between two spans of the same id',
     'compress() gives a malformed expression',
     '''
e = 'a1[0:1]+a1+a1[2:3]'
assert ref.compress(e) == e, ref.compress(e)
assert ref.compress('a1[0:1]+a1[2:3]') == 'a1[0:1+2:3]'
''')

seed('transient-resume', 'C11', MO, [("        else:\n            for igt in self._generator:\n                # don't add, but set the parent\n                igt._parent = self\n                yield igt\n            self.mode = FULL",
     "        else:\n            self.mode = FULL\n            for igt in self._generator:\n                # don't add, but set the parent\n                igt._parent = self\n                yield igt")],
     'an iteration over a transient corpus that is interrupted and started again',
     'the remaining IGTs are never yielded',
     '''
xc = XigtCorpus(igts=(Igt(id='i%d' % i) for i in range(4)), mode='transient')
first = [next(iter(xc)).id]
rest = [g.id for g in xc]
assert first + rest == ['i0', 'i1', 'i2', 'i3'], (first, rest)
''')

seed('group-steps-alias', 'C14', 'xigt/xigtpath.py', [("        steps = deque(orig_steps)\n    # don't yield here", "        steps = orig_steps\n    # don't yield here")],
     'a group below a step with three or more context objects',
     'the steps of the group are used up after the second object',
     '''
xc = XigtCorpus(igts=[Igt(id='i%d' % i, tiers=[Tier(id='t', items=[Item(id='a', text='x')])]) for i in range(3)])
r = xp.findall(xc, 'igt/(tier | metadata)')
assert len(r) == 3, r
''')

seed('predicate-any', 'C15', 'xigt/xigtpath.py', [("            predtest = lambda obj: all(v!=val for v in findall(obj, subpath))", "            predtest = lambda obj: any(v!=val for v in findall(obj, subpath))")],
     'a [p!="v"] predicate whose path has several results, one of which is v, or none',
     'objects are kept although one of the results equals the value',
     '''
igt = Igt(id='i', tiers=[Tier(id='a', type='x'), Tier(id='b', type='y')])
xc = XigtCorpus(igts=[igt, Igt(id='j')])
r = [g.id for g in xp.findall(xc, '/igt[tier/@type!="x"]')]
assert r == ['j'], r
''')

seed('xml-redeclared-prefix', 'C16', 'xigt/codecs/xigtxml.py', [("            if nscontext.get(pre) != uri:", "            if pre not in nscontext:")],
     'a prefix that an inner object binds to another URI than its parent',
     'the inner declaration is not written, so that names change their namespace',
     '''
xc = XigtCorpus(nsmap={'p': 'http://a'}, igts=[Igt(id='i', nsmap={'p': 'http://b'}, attributes={'{http://b}x': '1'})])
r = xigtxml.loads(xigtxml.dumps(xc))
assert r[0].attributes == {'{http://b}x': '1'}, r[0].attributes
''')

seed('json-global-nsmap', 'C17', 'xigt/codecs/xigtjson.py', [("""    obj, ns = _make_obj(mc, nscontext)
    if obj.get('namespace') in inv_nsmap:
""", """    obj, ns = _make_obj(mc, nscontext)
    children = [encode_metachild(child, ns) for child in mc.children]
    if obj.get('namespace') in inv_nsmap:
"""), ("""    if mc.text is not None: obj['text'] = mc.text
    if mc.children:
        obj['children'] = [encode_metachild(mc, ns) for mc in mc.children]
""", """    if mc.text is not None: obj['text'] = mc.text
    if children:
        obj['children'] = children
""")],
     'a namespaced metachild with a child that binds the same prefix or URI differently',
     'the name of the outer element gets the prefix of the inner one',
     '''
c = MetaChild('in', nsmap={'q': 'http://a'}, namespace='http://a')
m = MetaChild('out', nsmap={'p': 'http://a'}, namespace='http://a', children=[c])
xc = XigtCorpus(metadata=[Metadata(metas=[Meta(children=[m])])])
s = xigtjson.dumps(xc)
assert '"p:out"' in s, s
''')

seed('metachild-strip', 'C18', 'xigt/codecs/xigtxml.py', [("""    text = elem.text or ''
    mc = MetaChild(
        tag,
        attributes=get_attributes(elem),
        text=text if text.strip() else None,
""", """    text = (elem.text or '').strip()
    mc = MetaChild(
        tag,
        attributes=get_attributes(elem),
        text=text or None,
""")],
     'text of a metachild that begins or ends with whitespace',
     'the whitespace is lost when the file is read',
     '''
x = '<xigt-corpus><metadata><meta id="m"><a> x </a></meta></metadata></xigt-corpus>'
r = xigtxml.loads(x)
assert r.metadata[0][0].children[0].text == ' x ', repr(r.metadata[0][0].children[0].text)
''')

seed('json-dump-open-first', 'C19', 'xigt/codecs/xigtjson.py', [("""    data = encode(xc)
    if hasattr(f, 'write'):
        json.dump(data, f, indent=indent)
    else:
        with open(f, 'w') as fh:
            json.dump(data, fh, indent=indent)
""", """    if hasattr(f, 'write'):
        json.dump(encode(xc), f, indent=indent)
    else:
        with open(f, 'w') as fh:
            json.dump(encode(xc), fh, indent=indent)
""")],
     'dumping a corpus that cannot be encoded to an existing file',
     'the existing file is truncated',
     '''
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'f.json')
    open(p, 'w').write('old')
    xc = XigtCorpus(igts=[Igt(id='i')])
    xc[0].attributes[3] = 'x'   # not a name
    try:
        xigtjson.dump(p, xc)
    except Exception:
        pass
    else:
        raise SystemExit('encoded')
    assert open(p).read() == 'old'
''')

seed('sort-digits', 'C20', 'xigt/scripts/xigt_sort.py', [("""        try:
            return int(x)
        except ValueError:
            return x
""", """        return int(x) if x.isnumeric() else x
""")],
     'a sort key that is a numeric character but no decimal digit (such as a superscript two or a fraction)',
     'sorting fails',
     '''
from xigt.scripts import xigt_sort
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'f.xml')
    xigtxml.dump(p, XigtCorpus(igts=[Igt(id='i', type=u'\\u00b2'), Igt(id='j', type='10'), Igt(id='k', type='9')]))
    with contextlib.redirect_stdout(io.StringIO()):
        xigt_sort.main(['--in-place', '--igt-key=@type', p])
    r = [g.id for g in xigtxml.load(p)]
    assert r.index('k') < r.index('j') and len(r) == 3, r
''')

seed('partition-existing', 'C21', 'xigt/scripts/xigt_partition.py', [("    if os.path.isdir(outdir):\n", "    if os.path.isdir(outdir) and os.listdir(outdir):\n"), ("        os.mkdir(outdir)\n", "        os.makedirs(outdir, exist_ok=True)\n")],
     'an output directory that exists but is empty',
     'files are written to a directory that the command did not create',
     '''
from xigt.scripts import xigt_partition
logging.disable(logging.CRITICAL)
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'f.xml')
    xigtxml.dump(p, XigtCorpus(igts=[Igt(id='i', type='a')]))
    out = os.path.join(d, 'out')
    os.mkdir(out)
    try:
        xigt_partition.main(['--key-path=@type', out, p])
    except SystemExit as e:
        assert e.code
    else:
        raise SystemExit('no error')
    assert os.listdir(out) == []
    xigt_partition.main(['--key-path=@type', out + '2', p])
    assert os.listdir(out + '2') == ['a.xml']
''')

seed('validate-span-start', 'C22', 'xigt/scripts/xigt_validate.py', [("        if start > item_len or end > item_len:", "        if end > item_len:")],
     'a span whose start lies beyond the item but not its end (w1[9:2])',
     'an invalid span is not reported',
     '''
from xigt.scripts import xigt_validate as v
logging.disable(logging.CRITICAL)
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'f.xml')
    xigtxml.dump(p, XigtCorpus(igts=[Igt(id='i', tiers=[
        Tier(id='w', type='words', items=[Item(id='w1', text='abc')]),
        Tier(id='m', type='morphemes', segmentation='w', items=[Item(id='m1', segmentation='w1[9:2]')])])]))
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            v.main(['-v', p])
        except SystemExit as e:
            assert e.code == 1, e.code
''')

seed('query-description', 'C23', 'xigt/scripts/xigt_query.py', [("            agendum = agenda[-1]\n", "            agendum = agenda[0]\n")],
     'a description after the second of two actions',
     'the description is given to the first action',
     '''
from xigt.scripts import xigt_query
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'f.xml')
    xigtxml.dump(p, XigtCorpus(igts=[Igt(id='i', tiers=[Tier(id='t')])]))
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        xigt_query.main([p, '-c', 'igt', '-c', 'igt/tier', '-d', 'TIERS'])
    lines = out.getvalue().split('\\n')
    assert 'TIERS' not in lines[1] and 'TIERS' in lines[2], lines
''')

seed('export-config', 'C24', 'xigt/scripts/xigt_export.py', [("        exporter.xigt_export(xc, outpath, config=cfg)", "        exporter.xigt_export(xc, outpath, config=config)")],
     'exporting with a configuration file',
     'the exporter gets the name of the file and not the configuration',
     '''
from xigt.scripts import xigt_export
logging.disable(logging.CRITICAL)
with tempfile.TemporaryDirectory() as d:
    p, c, o = (os.path.join(d, x) for x in ('f.xml', 'c.json', 'o.tex'))
    xigtxml.dump(p, XigtCorpus(igts=[Igt(id='i', tiers=[Tier(id='w', type='words'), Tier(id='x', type='odd')])]))
    open(c, 'w').write('{"tier_types": ["phrases"]}')
    xigt_export.main(['-i', p, '-o', o, '-c', c])
    assert 'cannot export' in open(o).read()
''')

FAKE_ODIN = '''
import types
m = types.ModuleType('odintxt')
sys.modules['odintxt'] = m
from xigt.importers import odin
'''
seed('odin-and-suffix', 'C26', 'xigt/importers/odin.py', [("    if os.path.isfile(inpath) and not os.path.isdir(outpath):", "    if os.path.isfile(inpath):")],
     'a file as input and an existing directory as output',
     'the mismatch is not reported as such',
     FAKE_ODIN + '''
from xigt.errors import XigtImportError
m.odin_blocks = lambda fh: iter(())
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'f.txt')
    open(p, 'w').write('')
    try:
        odin.xigt_import(p, d, {})
    except XigtImportError:
        pass
    else:
        raise SystemExit('no error')
''')

FAKE_TB = '''
import types
m = types.ModuleType('toolbox')
m.ToolboxError = type('ToolboxError', (Exception,), {})
m.ToolboxWarning = type('ToolboxWarning', (Warning,), {})
sys.modules['toolbox'] = m
from xigt.importers import toolbox as tb
'''
seed('toolbox-numbering', 'C27', 'xigt/importers/toolbox.py', [("""    else:
        for tgt, src in aln_tokens:
            for s in src:
                items.append(Item(id='{}{}'.format(tier_id, i), text=s))
                i += 1
""", """    else:
        for tgt, src in aln_tokens:
            for i, s in enumerate(src, i):
                items.append(Item(id='{}{}'.format(tier_id, i), text=s))
""")],
     'an unaligned tier with more than one group of tokens',
     'items of later groups get ids that are already used',
     FAKE_TB + '''
t = tb.make_tier('glosses', 'g', None, [(None, ['a', 'b']), (None, ['c'])], None)
assert [i.id for i in t] == ['g1', 'g2', 'g3'], [i.id for i in t]
''')

seed('error-path-name', 'C28', 'xigt/codecs/xigtxml.py', [("    if not isinstance(xc, XigtCorpus):\n        raise XigtError(\n            'First argument of dumps() must be an instance of XigtCorpus.'\n        )",
     "    if not isinstance(xc, XigtCorpus):\n        raise XigtStructureError(\n            'First argument of dumps() must be an instance of XigtCorpus.'\n        )")],
     'dumps() called with something that is not a corpus',
     'a NameError is raised instead of the intended error',
     '''
from xigt.errors import XigtError
try:
    xigtxml.dumps(Igt(id='i'))
except XigtError:
    pass
''')

FAKE_DELPHIN = '''
import types
m = types.ModuleType('delphin')
m.itsdb = types.ModuleType('delphin.itsdb')
sys.modules['delphin'] = m
sys.modules['delphin.itsdb'] = m.itsdb
from xigt.exporters import itsdb
'''
seed('itsdb-start-zero', 'C29', 'xigt/exporters/itsdb.py', [("    config.setdefault('i-id_skip', 10)", "    config['i-id_skip'] = config.get('i-id_skip') or 10")],
     'a configuration with a skip of zero',
     'a configured value is replaced by the default',
     FAKE_DELPHIN + '''
c = itsdb.prepare_config({'i-id_skip': 0, 'cells': []})
rows = list(itsdb.export_corpus([Igt(id='a'), Igt(id='b')], c))
assert [r['i-id'] for r in rows] == [0, 0], rows
''')

seed('get-meta-conditions', 'C30', MD, [("            return self._parent.get_meta(key, conditions, default, inherit)", "            return self._parent.get_meta(key, default=default, inherit=inherit)")],
     'an inherited lookup with conditions that the metas of the parent do not meet',
     'metas of the parent are returned that do not meet the conditions',
     '''
igt = Igt(id='i')
xc = XigtCorpus(igts=[igt], metadata=[Metadata(type='xigt-meta', metas=[Meta(id='m', type='judgment', text='ok')])])
assert igt.get_meta('judgment', conditions=[lambda m: m.text == 'bad']) is None
assert [m.id for m in igt.get_meta('judgment', conditions=[lambda m: m.text == 'ok'])] == ['m']
''')


seed('stale-index', 'C01', MX, [("        self._dict = {}\n        for obj in self:\n            self._create_id_mapping(obj)",
     "        for obj in self:\n            if obj.id not in self._dict:\n                self._create_id_mapping(obj)")],
     'an id that is changed while the object is contained, followed by an index refresh',
     'the old id is still found after the refresh',
     """
t = Tier(id='t', items=[Item(id='a'), Item(id='b')])
t[0].id = 'c'
t.refresh_index()
assert t.get('c') is t[0]
assert t.get('a') is None
""")

seed('extend-keeps-parent', 'C03', MX, [("        for obj in objs:\n            self.append(obj)",
     "        for obj in objs:\n            self._assert_type(obj)\n            self._create_id_mapping(obj)\n            obj._parent = getattr(obj, '_parent', None) or self._container\n            list.append(self, obj)")],
     'objects that are moved from one container to another with extend()',
     'the parent is still the old container',
     """
a = Tier(id='t', items=[Item(id='a'), Item(id='b')])
b = Tier(id='u')
b.extend(a.items)
assert all(i.tier is b for i in b)
""")

seed('sort-tiers-first-attr', 'C12', MO, [("                 if ra in t.attributes),\n                None", "                 if t.attributes.get(ra) in idx),\n                None")],
     'a tier whose first requested reference is dangling and that has a second one',
     'the tier is placed by another attribute than the first one it has',
     """
igt = Igt(id='i', tiers=[Tier(id='a'), Tier(id='b'), Tier(id='c', alignment='zz', content='a')])
igt.sort_tiers(refattrs=('alignment', 'content'))
ids = [t.id for t in igt]
igt = Igt(id='i', tiers=[Tier(id='a'), Tier(id='b'), Tier(id='c', alignment='zz')])
igt.sort_tiers(refattrs=('alignment', 'content'))
assert [t.id for t in igt] == ids, ids
""")

seed('descendants-cycle-break', 'C13', 'xigt/query.py', [("            if (tier.id, refattr) in visited:\n                continue", "            if (tier.id, refattr) in visited:\n                break")],
     "descendants(..., follow='all') where the first attribute leads back to a tier that has referrers by another one",
     'referrers by the other attribute are not reported',
     """
# q is reached twice: first by segmentation; its alignment referrers come in the same step
igt = Igt(id='i', tiers=[Tier(id='p', segmentation='q', items=[Item(id='p1', segmentation='q1')]),
                         Tier(id='q', segmentation='p', items=[Item(id='q1', segmentation='p1')]),
                         Tier(id='t', alignment='q', items=[Item(id='t1', alignment='q1')])])
igt.refresh_indices()
r = [(d[0].id, d[1], d[2].id) for d in query.descendants(igt['p'], refattrs=('segmentation', 'alignment'), follow='all')]
assert ('q', 'alignment', 't') in r, r
r = [(d[0].id, d[1], d[2].id) for d in query.descendants(igt['p'], refattrs=('segmentation', 'segmentation', 'alignment'), follow='all')]
assert ('q', 'alignment', 't') in r, r
""")

seed('latex-single-tier', 'C25', 'xigt/exporters/latex.py', [("    if len(tiers) < 2:", "    if not tiers:")],
     'an IGT with exactly one tier of an exported type',
     'a one-line example is exported instead of the comment',
     """
from xigt.exporters import latex
igt = Igt(id='i', tiers=[Tier(id='w', type='words', items=[Item(id='w1', text='a')]), Tier(id='x', type='notes')])
r = latex.export_igt(igt, latex.prepare_config(None))
assert all(l.startswith('%') for l in r.splitlines()), r
""")

seed('latex-delayed-end', 'C25', 'xigt/exporters/latex.py', [("            start += num\n            end += num\n", "            start += num\n")],
     'an unaligned token before a token that is aligned with two columns',
     'the columns of the token are not merged',
     """
from xigt.exporters import latex
w = Tier(id='w', type='words', items=[Item(id='w%d' % i, text='w%d' % i) for i in (1, 2, 3)])
m = Tier(id='m', type='morphemes', alignment='w', items=[
    Item(id='m1', text='m1'), Item(id='m2', alignment='w1,w2', text='m2'), Item(id='m3', alignment='w3', text='m3')])
Igt(id='i', tiers=[w, m])
cols = [[[i.id for i in row] for row in col] for col in latex.group_alignments([w, m])]
assert cols == [[[], ['m1']], [['w1', 'w2'], ['m2']], [['w3'], ['m3']]], cols
""")

seed('validate-item-scope', 'C22', 'xigt/scripts/xigt_validate.py', [("    tier_ids = Counter()\n    item_ids = Counter()\n    for i, tier in enumerate(igt):\n",
     "    tier_ids = Counter()\n    for i, tier in enumerate(igt):\n        item_ids = Counter()\n")],
     'the same item id on two tiers of an IGT',
     'item ids are only checked within their tier',
     """
from xigt.scripts import xigt_validate as v
igt = Igt(id='i', tiers=[Tier(id='a', type='x', items=[Item(id='q')]), Tier(id='b', type='x', items=[Item(id='q')])])
r = v.validate_igt(igt, v.make_context(igt, 0, '<igt>', '<xigt-corpus>'))
assert any('unique' in rec['message'] for t in r['children'] for i in t['children'] for rec in i['records']), r
""")

seed('query-tally-top', 'C23', 'xigt/scripts/xigt_query.py', [("in counts.most_common()\n", "in counts.most_common(10)\n")],
     'a tally with more than ten groups',
     'only the ten most common groups are reported',
     """
from xigt.scripts import xigt_query as q
xc = XigtCorpus(igts=[Igt(id='i%d' % i) for i in range(14)])
r = q.tally_pattern(xc, {'query': 'igt', 'subquery': '@id', 'description': '{match!s}'})
assert len(r) == 14 and sum(n for n, _ in r) == 14, r
""")

seed('xml-namespace-order', 'C16', 'xigt/codecs/xigtxml.py', [("            namespaces.pop()\n", "            namespaces.pop(0)\n")],
     'a prefix that is declared on an inner element only, followed by a sibling',
     'the sibling has the prefix of the inner element and not that of the corpus',
     """
xc = xigtxml.loads('<xigt-corpus xmlns:a="http://a"><igt id="i" xmlns:b="http://b"/><igt id="j"/></xigt-corpus>')
assert xc[0].nsmap == {'a': 'http://a', 'b': 'http://b'}, xc[0].nsmap
assert xc[1].nsmap == {'a': 'http://a'}, xc[1].nsmap
""")

seed('json-meta-text-or-children', 'C17', 'xigt/codecs/xigtjson.py', [("    if m.text is not None: obj['text'] = m.text\n    if m.children:\n", "    if m.text is not None: obj['text'] = m.text\n    elif m.children:\n")],
     'a meta with text and children',
     'the children are not written',
     """
xc = XigtCorpus(igts=[Igt(id='i', metadata=[Metadata(metas=[Meta(text='t', children=[MetaChild('c')])])])])
r = xigtjson.loads(xigtjson.dumps(xc))
assert r == xc
assert len(r[0].metadata[0][0]) == 1
""")

seed('itsdb-start-times-skip', 'C29', 'xigt/exporters/itsdb.py', [("id_start + (i * id_skip)", "(id_start + i) * id_skip")],
     'a configuration with a start other than zero',
     'the ids start at a multiple of the start',
     """
import types
d = types.ModuleType('delphin'); d.itsdb = types.ModuleType('delphin.itsdb')
sys.modules['delphin'] = d; sys.modules['delphin.itsdb'] = d.itsdb
from xigt.exporters import itsdb
xc = XigtCorpus(igts=[Igt(id='a'), Igt(id='b')])
cfg = itsdb.prepare_config({'i-id_start': 5, 'i-id_skip': 10, 'cells': []})
assert [r['i-id'] for r in itsdb.export_corpus(xc, cfg)] == [5, 15]
""")

seed('odin-invalid-range', 'C26', 'xigt/importers/odin.py', [("invalid_char_re = re.compile('[^\\x09\\x0A\\x0D\\u0020-\\uD7FF\\uE000-\\uFFFD'", "invalid_char_re = re.compile('[^\\x09\\x0A\\x0D\\u0020-\\uD7FF\\uE000-\\uFFFF'")],
     'a line with a noncharacter such as U+FFFE',
     'a character that XML does not allow is kept',
     """
import types
sys.modules['odintxt'] = types.ModuleType('odintxt')
from xigt.importers import odin
assert odin.replace_invalid_xml_chars('a\\uFFFEb\\x00c', '?') == 'a?b?c'
assert odin.replace_invalid_xml_chars('a\\uFFFDb\\n', '?') == 'a\\uFFFDb\\n'
""")

seed('sort-tiers-priority', 'C12', MO, [("                key.append((idx[tmp[0]], tmp[1]))\n", "                key.append((idx[tmp[0]], tmp[1]))\n                if len(seen) > 3:\n                    break\n")],
     'a chain of more than three references',
     'tiers far from their first ancestor are placed by a later one',
     """
igt = Igt(id='i', tiers=[Tier(id='e', alignment='d'), Tier(id='d', alignment='c'), Tier(id='c', alignment='b'),
                         Tier(id='b', alignment='a'), Tier(id='a')])
igt.sort_tiers(refattrs=('alignment',))
assert [t.id for t in igt] == ['a', 'b', 'c', 'd', 'e'], [t.id for t in igt]
""")

seed('sort-key-order', 'C20', 'xigt/scripts/xigt_sort.py', [("        except ValueError:\n            return x\n", "        except ValueError:\n            return x.lower()\n")],
     'keys that differ in case only',
     'tiers whose keys differ in case are taken as equal',
     """
from xigt.scripts import xigt_sort as s
a, b = Tier(id='a', type='W'), Tier(id='b', type='w')
k = s.make_sortkey(['@type'])
assert k(a) != k(b)
""")

