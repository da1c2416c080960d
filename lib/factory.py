"""The configuration format: which component each type name stands for, and which option feeds which setting.

The terms below are those of the value graph: JGet(o, key) the value of an option, JType its JSON type, JStr/JInt/JBool/JDbl its
content; FACTORIES is the documented format, written down independently of the code."""
import terms as tm
from prop import *

JOBJ, JSTRING, JNULL = 2, 4, 6


def null(v):
    return eq0(sub(app('JType', (v,), 'int'), I(JNULL)))


def isobj(v):
    return eq0(sub(app('JType', (v,), 'int'), I(JOBJ)))


def get(o, *path):
    for k in path:
        o = tm.mk('JGet', o, tm.lits(k))
    return o


def text(v):
    return tm.mk('JStr', v)


def num(v):
    return app('JInt', (v,), 'int')


def flag(v):
    return tm.mk('JBool', v, 'bool')


def S(key, *inner):
    return lambda o: tm.ite_seq(null(get(o, key)), tm.EMPTY, text(get(o, key, *inner)))


def N(key):
    return lambda o: Ite(null(get(o, key)), I(0), num(get(o, key)))


def Fb(key):
    return lambda o: And(Not(null(get(o, key))), flag(get(o, key)))


def D(key):
    return lambda o: Ite(null(get(o, key)), tm.mk('Flt', 0.0), tm.mk('JDbl', get(o, key)))


def strip_accents(o):
    return Ite(null(get(o, 'strip_accents')), Fb('lowercase')(o), flag(get(o, 'strip_accents')))


# factory -> type name -> (class, {setting: value}); class None: the name is known but not supported
FACTORIES = {
    'with_normalizer': {
        'Sequence': ('SequenceNormalizer', {}),
        'NFC': ('NFC', {}), 'NFD': ('NFD', {}), 'NFKC': ('NFKC', {}), 'NFKD': ('NFKD', {}),
        'Prepend': ('Prepend', {'prepend': S('prepend')}),
        'Replace': ('Replace', {'pattern': S('pattern', 'String'), 'content': S('content')}),
        'BertNormalizer': ('BertNormalizer', {'clean_text': Fb('clean_text'), 'handle_chinese_chars': Fb('handle_chinese_chars'),
                                              'lowercase': Fb('lowercase'), 'strip_accents': strip_accents}),
        'Strip': ('Strip', {'strip_left': Fb('strip_left'), 'strip_right': Fb('strip_right')}),
        'StripAccents': ('StripAccents', {}),
        'Lowercase': None, 'Nmt': None, 'Precompiled': None, 'ByteLevel': None, 'NoSuchNormalizer': None},
    'with_pre_tokenizer': {
        'Sequence': ('SequencePreTokenizer', {}),
        'BertPreTokenizer': ('BertPreTokenizer', {}),
        'Split': ('SplitPreTokenizer', {'pattern': S('pattern', 'Regex'), 'invert': Fb('invert')}),
        'ByteLevel': ('ByteLevelPreTokenizer', {'add_prefix_space': Fb('add_prefix_space'), 'use_regex': Fb('use_regex')}),
        'CharDelimiterSplit': None, 'Digits': None, 'Metaspace': None, 'Punctuation': None, 'UnicodeScripts': None, 'Whitespace': None,
        'WhitespaceSplit': None, 'NoSuchPreTokenizer': None},
    'with_model': {
        'WordPiece': ('WordPiece', {'unk_token': S('unk_token'), 'max_input_chars_per_word': N('max_input_chars_per_word'),
                                    'continuing_subword_prefix': S('continuing_subword_prefix')}),
        'BPE': ('BPE', {'dropout': D('dropout'), 'unk_token': S('unk_token'), 'continuing_subword_prefix': S('continuing_subword_prefix'),
                        'end_of_word_suffix': S('end_of_word_suffix'), 'fuse_unk': Fb('fuse_unk'), 'byte_fallback': Fb('byte_fallback'),
                        'ignore_merges': Fb('ignore_merges')}),
        'Unigram': None, 'WordLevel': None, 'NoSuchModel': None},
    'with_post_processor': {
        'Sequence': ('SequenceProcessing', {}),
        'TemplateProcessing': ('TemplateProcessing', {}),
        'ByteLevel': ('ByteLevelProcessing', {'add_prefix_space': Fb('add_prefix_space'), 'trim_offsets': Fb('trim_offsets')}),
        'BertProcessing': None, 'RobertaProcessing': None, 'NoSuchProcessor': None},
    'with_decoder': {
        'Sequence': ('SequenceDecoder', {}),
        'WordPiece': ('WordPieceDecoder', {'prefix': S('prefix'), 'cleanup': Fb('cleanup')}),
        'Strip': ('StripDecoder', {'content': S('content'), 'start': N('start'), 'stop': N('stop')}),
        'Replace': ('ReplaceDecoder', {'pattern': S('pattern', 'String'), 'content': S('content')}),
        'ByteFallback': ('ByteFallbackDecoder', {}), 'Fuse': ('FuseDecoder', {}), 'ByteLevel': ('ByteLevelDecoder', {}),
        'BPEDecoder': None, 'CTC': None, 'Metaspace': None, 'NoSuchDecoder': None},
}
# a class and the name it stands for, where one name is configured without a type
PLAIN = {
    'with_truncation': ('Truncation', {'max_length': N('max_length'), 'stride': N('stride')}),
    'with_padding': ('Padding', {'pad_id': N('pad_id'), 'pad_type_id': N('pad_type_id'), 'pad_token': S('pad_token'),
                                 'pad_to_multiple_of': N('pad_to_multiple_of')}),
}
SECTIONS = {'truncation': 'with_truncation', 'padding': 'with_padding', 'normalizer': 'with_normalizer', 'pre_tokenizer': 'with_pre_tokenizer',
            'model': 'with_model', 'decoder': 'with_decoder', 'post_processor': 'with_post_processor', 'added_vocabulary': 'with_added_vocabulary'}


def named(par, name):
    return eq(text(get(par, 'type')), tm.lits(name))


def leaves(t, facts):
    """(value, facts on the way) of the outcomes of a term built from conditionals"""
    t = refine(t, facts)
    if t.op == 'Ite':
        out = []
        for c, x in ((t.a[0], t.a[1]), (Not(t.a[0]), t.a[2])):
            fs = list(facts) + [c]
            if not inconsistent(fs):
                out += leaves(x, fs)
        return out
    return [(t, list(facts))]


def cls_of(t):
    """class of a built component, '' for none, None if not known"""
    if t.op == 'Null':
        return ''
    if t.op == 'Box' and t.a[0].op == 'Rec':
        return t.a[0].a[0]
    return None


def tokenizer_built(j):
    """the tokenizer as constructed from a document, before its added tokens are entered"""
    s = j.summ('Tokenizer::Tokenizer', opaque=set(SECTIONS.values()) | {'add_tokens', 'bytes_char'})
    if s is None:
        return None, None
    r = s.ret
    while r.op == 'App' and str(r.a[0]).endswith('!this') and r.a[1]:
        r = r.a[1][0]
    return s, r
