"""What each property is decided on.

PROPS maps a property to its obligations: patterns over the functions of the
package (M.f, M.C.m, M.C.p and M.C.p.setter), each optionally restricted to
some of the effects of the function.  The functions themselves are kept
opaque inside each other, so that a property lists every function that takes
part in it.
"""

import fnmatch

MX, MD, MO = 'xigt.mixins.', 'xigt.metadata.', 'xigt.model.'
CM, AM, RM = MX + 'XigtContainerMixin.', MX + 'XigtAttributeMixin.', MX + 'XigtReferenceAttributeMixin.'
MM = MD + 'XigtMetadataMixin.'
RF, QY, XP = 'xigt.ref.', 'xigt.query.', 'xigt.xigtpath.'
XX, XJ = 'xigt.codecs.xigtxml.', 'xigt.codecs.xigtjson.'
SC, EX, IM = 'xigt.scripts.', 'xigt.exporters.', 'xigt.importers.'

INITS = [MO + '*.__init__', MD + '*.__init__']
VIEWS = [MO + 'XigtCorpus.igts*', MO + 'Igt.tiers*', MO + 'Tier.items*', MD + 'Metadata.metas*',
         MD + 'Metadata.text*', MD + 'Meta.children*', MD + 'MetaChild.children*', MM + 'metadata*']
INSERT = [CM + x for x in ('append', 'insert', 'extend', '__iadd__', '__setitem__', 'add', 'add_list')]
REMOVE = [CM + x for x in ('remove', '__delitem__', 'pop', 'clear')] + [MX + 'listclear']
LOOKUP = [CM + '__getitem__', CM + 'get']
PARENTS = [MO + x for x in ('Igt.corpus', 'Tier.igt', 'Tier.corpus', 'Item.tier', 'Item.igt', 'Item.corpus')]
ALLOWED = [MO + 'Tier.allowed_reference_attributes', MO + 'Item.allowed_reference_attributes']

ENCODED = ('ordered', ('xigt.codecs.xigtxml.default_encode_xigtcorpus', 'xigt.codecs.xigtjson.encode',
                       'xigt.codecs.xigtxml._tostring', 'json.dumps', 'json.dump',
                       'xigt.codecs.xigtxml.encode', 'xigt.codecs.xigtxml.encode_xigtcorpus'))


class P(object):
    def __init__(self, funcs, drop=(), opts=(), rules=(), classes=(), names=(), inside=None):
        self.funcs = funcs          # patterns
        self.drop = drop            # regions that do not matter here
        self.opts = opts            # options of the analysis
        self.rules = rules          # direct rules (rules.py)
        self.classes = classes      # classes whose protocol must be the same
        self.names = names          # ... restricted to these members
        # functions that are looked into as well where these patterns use
        # them: what was done before they raise
        self.inside = inside


MODEL = ('xigt.model.XigtCorpus', 'xigt.model.Igt', 'xigt.model.Tier', 'xigt.model.Item',
         'xigt.metadata.Metadata', 'xigt.metadata.Meta', 'xigt.metadata.MetaChild',
         'xigt.mixins.XigtContainerMixin')
PARENT = (('attr', '_parent'),)

PROPS = {
    'C01': P(INSERT + REMOVE + LOOKUP + INITS + VIEWS +
             [CM + '__init__', CM + '_create_id_mapping', CM + 'refresh_index', MO + 'Igt.refresh_indices'],
             drop=PARENT, classes=MODEL,
             names=('append', 'insert', 'extend', '__iadd__', '__setitem__', 'remove', '__delitem__', 'pop', 'clear',
                    '__getitem__', 'get', '__contains__', '__len__', '__bool__', '__iter__', 'refresh_index')),
    'C02': P(INSERT + INITS + VIEWS + [CM + '__init__', CM + '_assert_type', CM + '_create_id_mapping'],
             classes=MODEL, names=('append', 'insert', 'extend', '__iadd__', '__setitem__'), rules=('errors',),
             inside=(INSERT, (CM + '_assert_type', CM + '_create_id_mapping'))),
    'C03': P(INSERT + REMOVE + LOOKUP + INITS + VIEWS + PARENTS +
             [CM + '__init__', MO + 'XigtCorpus.__iter__', MX + '_has_parent'],
             classes=MODEL, names=('append', 'insert', 'extend', '__iadd__', '__setitem__', 'igt', 'corpus', 'tier',
                                   'remove', '__delitem__', 'pop', 'clear', '__setattr__', '__getattr__',
                                   '__getattribute__')),
    'C04': P([MX + '*.__eq__', MX + '*.__ne__', MD + '*.__eq__', MD + '*.__ne__', MO + '*.__eq__', MO + '*.__ne__',
              MO + '*.__init__', MD + '*.__init__', MX + '*.__init__'] + VIEWS,
             classes=MODEL, names=('__eq__', '__ne__', '__len__', '__iter__')),
    'C05': P([AM + 'id*', AM + '__init__'] + INITS, classes=MODEL,
             names=('id', 'name', '__setattr__', '__getattr__', '__getattribute__')),
    'C06': P([AM + 'get_attribute', AM + 'nsmap*', AM + '__init__', MX + '_has_parent', RM + '__init__',
              RM + 'alignment*', RM + 'content*', RM + 'segmentation*'] + INITS, classes=MODEL,
             names=('get_attribute', 'nsmap', 'alignment', 'content', 'segmentation', '__setattr__', '__getattr__',
                    '__getattribute__')),
    'C07': P([MO + 'Igt.' + x for x in ('refresh_indices', '__init__', 'get_item', 'get_any', 'referents',
                                        'referrers')] + ALLOWED + [RF + 'ids', CM + 'refresh_index'],
             classes=('xigt.model.Igt', 'xigt.model.Tier', 'xigt.model.Item'),
             names=('refresh_indices', 'get_item', 'get_any', 'allowed_reference_attributes')),
    'C08': P([RF + x for x in ('referents', 'referrers', 'dereference', 'dereference_all', 'ids',
                               'get_aligned_tier')] +
             [RM + 'referents', RM + 'referrers', MO + 'Igt.referents', MO + 'Igt.referrers', MO + 'Igt.get_any',
              MO + 'Igt.get_item', MO + 'Igt.refresh_indices', MO + 'Igt.__init__'] + ALLOWED, rules=('errors',),
             classes=('xigt.model.Igt', 'xigt.model.Tier', 'xigt.model.Item'),
             names=('referents', 'referrers', 'get_any', 'get_item', 'allowed_reference_attributes')),
    'C09': P([MO + 'Item.' + x for x in ('value', 'resolve_ref', 'span', 'get_content', '__init__')] +
             [RF + 'resolve*', CM + '__getitem__', CM + 'get', MO + 'Igt.get_item', MO + 'Item.igt', MO + 'Item.tier',
              MO + 'Tier.igt', RM + '__init__', RM + 'alignment*', RM + 'content*', RM + 'segmentation*'],
             rules=('errors',), classes=('xigt.model.Item',), names=('value', 'resolve_ref', 'span', 'get_content')),
    'C10': P([RF + x for x in ('expand', 'compress', 'selections', 'spans', 'ids', 'resolve', 'resolve_alignment',
                               'resolve_alignment_expression', 'get_alignment_expression_ids',
                               'get_alignment_expression_spans')] + [AM + 'id*'], rules=()),
    'C11': P([MO + 'XigtCorpus.__iter__', MO + 'XigtCorpus.__init__', MO + 'XigtCorpus.igts*', CM + 'append',
              CM + 'extend', XX + 'load', XX + 'loads', XX + 'iter_elements', XX + 'ns_iterparse',
              XX + 'default_decode', XX + 'default_decode_xigtcorpus', XJ + 'load', XJ + 'loads', XJ + 'decode'],
             classes=('xigt.model.XigtCorpus',),
             names=('__iter__', 'igts', 'extend', 'append', '__len__', '__getitem__', '__bool__')),
    'C12': P([MO + 'Igt.sort_tiers', AM + 'get_attribute'], classes=('xigt.model.Igt',), names=('sort_tiers', 'sort')),
    'C13': P([QY + '*', RF + 'dereference', RF + 'dereference_all', RF + 'ids', RF + 'referrers', RF + 'referents',
              RM + 'referents', RM + 'referrers', MO + 'Igt.referents', MO + 'Igt.referrers', MO + 'Igt.get_any',
              MO + 'Igt.get_item'] + ALLOWED),
    'C14': P([XP + '*'], rules=('errors',)),
    'C15': P([XP + '*']),
    'C16': P([XX + '*'], rules=('aliases',)),
    'C17': P([XJ + '*'] + [AM + 'nsmap*']),
    'C18': P([XX + x for x in ('_indent', '_tostring', 'default_decode_meta', 'default_decode_metachild', 'dump',
                               'dumps', 'default_encode_*')]),
    'C19': P([XX + 'dump', XX + 'dumps', XX + 'load', XX + 'loads', XX + 'default_encode_xigtcorpus',
              XX + '_tostring', XX + 'default_decode', XX + 'iter_elements',
              XJ + 'dump', XJ + 'dumps', XJ + 'load', XJ + 'loads', XJ + 'validate', XJ + 'encode'],
             opts=(ENCODED,)),
    'C20': P([SC + 'xigt_sort.*', MO + 'Igt.sort_tiers']),
    'C21': P([SC + 'xigt_partition.*']),
    'C22': P([SC + 'xigt_validate.*']),
    'C23': P([SC + 'xigt_query.*', XP + 'find', XP + 'findall']),
    'C24': P(['xigt.main.main', SC + '*.main', SC + '*.run', EX + '*.xigt_export', IM + '*.xigt_import',
              IM + 'odin._xigt_import', IM + 'odin.prepare_outdir', EX + '*.prepare_config',
              SC + 'xigt_query.AgendaAction.__call__'], rules=('entry',)),
    'C25': P([EX + 'latex.*', EX + 'util.*']),
    'C26': P([IM + 'odin.*']),
    'C27': P([IM + 'toolbox.*'], rules=()),
    'C28': P([], rules=('names', 'exports')),
    'C29': P([EX + 'itsdb.*'], rules=()),
    'C30': P([CM + 'select', CM + '__init__', MM + 'get_meta', MM + '__init__', MM + 'metadata*', AM + 'nsmap', MX + '_has_parent',
              AM + '__init__'],
             classes=MODEL, names=('select', 'get_meta', 'metadata', '__iter__')),
    'C35': P([MO + '*.__repr__', MD + '*.__repr__', MD + 'Metadata.text*', MD + 'metadata_text_warning',
              MD + 'Metadata.__init__'], rules=('exports', 'errors'),
             classes=MODEL, names=('__repr__', '__str__', '__format__', 'text')),
}

# public functions that are not anybody's business but their own
PRIVATE_MODULES = ('xigt.exporters.', 'xigt.importers.', 'xigt.scripts.')
ENTRY = {'run', 'main', 'xigt_import', 'xigt_export'}
CALLBACKS = {'__call__', 'vformat', 'get_value', 'get_field', 'format_field', 'convert_field'}    # called by the standard library
SPECIAL = {'__init__', '__eq__', '__ne__', '__hash__', '__str__', '__repr__', '__format__', '__getitem__', '__missing__'}
JSON_HELPERS = {'active_namespaces', 'ns_split', 'decode_attributes', 'validate'}
XML_HELPERS = {'iter_elements', 'ns_iterparse', 'xigt_attrsort', 'default_get_attributes'}
XML_PUBLIC = {'load', 'loads', 'dump', 'dumps'}


def is_api(q):
    """Can user code call this directly?"""
    name = q.replace('.setter', '').split('.')[-1]
    if name.startswith('_') and not (name.startswith('__') and name.endswith('__')):
        return False
    if name in SPECIAL:
        return True
    if q.startswith(PRIVATE_MODULES):
        return name in ENTRY or name in CALLBACKS
    if q.startswith(XX):
        return name in XML_PUBLIC or name.startswith('default_') and name not in XML_HELPERS
    if q.startswith(XJ):
        return name not in JSON_HELPERS
    if q.startswith(XP):
        return name in ('find', 'findall', 'iterfind')
    return name not in ('listclear', 'metadata_text_warning')


def select(funcs, prop):
    pats = PROPS[prop].funcs
    return sorted(q for q in funcs if any(fnmatch.fnmatchcase(q, p) for p in pats))


FLOORS = {}
