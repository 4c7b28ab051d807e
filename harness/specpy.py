# Generated by spec2py.py from the TLA+ modules; do not edit.
# 13c31886ce4c3884550fe97c7a2ddba186e977afba6f9b9cf84e6027ecea3761
import json
from functools import reduce


class Th:
    """A value that is computed when first needed."""
    __slots__ = ("f", "v")

    def __init__(self, f):
        self.f = f

    def __call__(self):
        f = self.f
        if f is not None:
            self.v = f()
            self.f = None
        return self.v


def ap(f, i):
    if type(f) is tuple:
        if i < 1:
            raise IndexError(i)
        return f[i - 1]
    return f[i]


def fcn(dom, f):
    if type(dom) is range and dom.start == 1:
        return tuple([f(i) for i in dom])
    return {i: f(i) for i in dom}


def exc(f, path, val):
    k = path[0]
    if type(f) is tuple:
        old = f[k - 1]
        new = exc(old, path[1:], val) if len(path) > 1 else val(old)
        return f[:k - 1] + (new,) + f[k:]
    old = f[k]
    g = dict(f)
    g[k] = exc(old, path[1:], val) if len(path) > 1 else val(old)
    return g


def app(s, x):
    return s + (x,)


def subseq(s, i, j):
    if j < i:
        return s[:0]
    if i < 1 or j > len(s):
        raise IndexError(i, j)
    return s[i - 1:j]


def sel_first(s, i, j, p):
    for k in range(i, j + 1):
        if p(s[k - 1]):
            return k
    return 0


def sel_last(s, i, j, p):
    for k in range(j, i - 1, -1):
        if p(s[k - 1]):
            return k
    return 0


def choose(dom, p):
    for x in dom:
        if p(x):
            return x
    raise ValueError("CHOOSE")


def domain(f):
    return range(1, len(f) + 1) if type(f) is tuple else frozenset(f)


def merge(f, g):
    h = dict(g)
    h.update(f)
    return h


def no_case():
    raise ValueError("CASE")


def load(x):
    if type(x) is list:
        return tuple([load(i) for i in x])
    if type(x) is dict:
        return {k: load(v) for k, v in x.items()}
    return x


K0 = frozenset(('shift_jis', 'euc-jp', 'euc-kr', 'big5', 'gbk', 'gb18030', ))
o_MultiByte_6523 = K0

def o_IsSurrogate_2795(v2787):
    return ((v2787 >= 55296) and (v2787 <= 57343))


def o_IsHighSurr_2804(v2796):
    return ((v2796 >= 55296) and (v2796 <= 56319))


def o_IsLowSurr_2813(v2805):
    return ((v2805 >= 56320) and (v2805 <= 57343))

o_cFFFD_2706 = 65533

def o_NormFrom_3202(v3203, v3204, v3205):
    while True:
        if (v3204 > len(v3203)):
            return v3205
        if (not o_IsSurrogate_2795(ap(v3203, v3204))):
            v3204, v3205 = (v3204 + 1), app(v3205, ap(v3203, v3204))
            continue
        if ((o_IsHighSurr_2804(ap(v3203, v3204)) and (v3204 < len(v3203))) and o_IsLowSurr_2813(ap(v3203, (v3204 + 1)))):
            v3204, v3205 = (v3204 + 2), app(v3205, ((65536 + ((ap(v3203, v3204) - 55296) * 1024)) + (ap(v3203, (v3204 + 1)) - 56320)))
            continue
        v3204, v3205 = (v3204 + 1), app(v3205, o_cFFFD_2706)
        continue


def o_Norm_3294(v3277):
    if any(o_IsSurrogate_2795(ap(v3277, v3282)) for v3282 in range(1, len(v3277) + 1)):
        return o_NormFrom_3202(v3277, 1, ())
    return v3277

K1 = frozenset((167, 176, 233, 255, 1040, 1103, 8364, 8470, 8800, 12288, 12354, 12450, 12477, 26085, 26412, 34920, 33021, 20013, 25991, 21151, 35377, 54620, 44544, 65313, 65393, 65533, 127752, 131072, ))
o_MBKnown_5731 = K1

def o_OutsideTables_6865(v6838, v6839):
    return ((v6839 in o_MultiByte_6523) and (lambda v6845: any(((ap(v6845(), v6850) > 127) and (ap(v6845(), v6850) not in o_MBKnown_5731)) for v6850 in range(1, len(v6845()) + 1)))(Th(lambda: o_Norm_3294(v6838()))))

K2 = frozenset(('parse', 'ovr', 'pct', 'fenc', ))

def o_Outside_20138(v20064):
    return ((v20064['k'] in K2) and (any(o_OutsideTables_6865(Th(lambda: (ap(ap(v20064['ps'], v20085), 1) + ap(ap(v20064['ps'], v20085), 2))), v20064['enc']) for v20085 in range(1, len(v20064['ps']) + 1)) if (v20064['k'] == 'fenc') else (o_OutsideTables_6865(Th(lambda: v20064['s']), v20064['enc']) or (((v20064['k'] == 'parse') and (len(v20064['base']) == 1)) and o_OutsideTables_6865(Th(lambda: ap(v20064['base'], 1)), v20064['enc'])))))


def o_Skip_17776(v17758, v17759):
    return {'skip': True, 'tags': (), 'exp': {'d': v17758, 'strict': v17759}}


def o_V_17757(v17745, v17746):
    return {'skip': False, 'tags': v17745, 'exp': v17746}

K3 = frozenset(('done', 'fail', ))

def o_Halted_13469(v13461):
    return (v13461['st'] in K3)


def o_IsUpper_2724(v2716):
    return ((v2716 >= 65) and (v2716 <= 90))


def o_IsLower_2733(v2725):
    return ((v2725 >= 97) and (v2725 <= 122))


def o_IsAlpha_2740(v2734):
    return (o_IsUpper_2724(v2734) or o_IsLower_2733(v2734))

o_EOFC_2662 = (-1)

def o_Ch_2834(v2823, v2824):
    if (v2824 <= len(v2823)):
        return ap(v2823, v2824)
    return o_EOFC_2662


def o_Goto_10900(v10887, v10888, v10889):
    return exc(exc(v10887, ('st', ), lambda at: v10888), ('i', ), lambda at: v10889())


def o_Fail_10962(v10950, v10951):
    return exc(exc(v10950, ('st', ), lambda at: 'fail'), ('fail', ), lambda at: v10951())


def o_SchemeStart_11026(v10994, v10995):
    if o_IsAlpha_2740(o_Ch_2834(v10994['inp'], v10995['i'])):
        return o_Goto_10900(v10995, 'scheme', Th(lambda: v10995['i']))
    if (v10994['ovr'] == ''):
        return o_Goto_10900(v10995, 'no scheme', Th(lambda: v10995['i']))
    return o_Fail_10962(v10995, (lambda: 'URLParseError'))

K4 = (frozenset(range(48, 57 + 1)) | frozenset(range(65, 90 + 1)))
K5 = (frozenset(K4) | frozenset(range(97, 122 + 1)))
K6 = frozenset((43, 45, 46, ))
K7 = (frozenset(K5) | frozenset(K6))
o_SchemeChars_10646 = K7

def o_LAMBDA_10657(v10653):
    return (v10653 not in o_SchemeChars_10646)


def o_NotSchemeScan_10671(v10647, v10648):
    v10660 = sel_first(v10647, v10648, len(v10647), (lambda v10653: (v10653 not in o_SchemeChars_10646)))
    if (v10660 == 0):
        return (len(v10647) + 1)
    return v10660

o_cCOLON_2688 = 58
o_ASCIIPrintable_2604 = ' !"#$%&\'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~'

def o_LAMBDA_2617(v2605, v2606):
    return merge(v2605, {subseq(o_ASCIIPrintable_2604, v2606, v2606): (31 + v2606)})

o_CodeOf_2637 = reduce((lambda v2605, v2606: merge(v2605, {subseq(o_ASCIIPrintable_2604, v2606, v2606): (31 + v2606)})), fcn(range(1, 95 + 1), lambda v2633: v2633), merge(merge({'': 0}, {'\t': 9}), {'\n': 10}))

def o_S_2659(v2638):
    if (len(v2638) == 0):
        return ()
    return (fcn(range(1, len(v2638) + 1), lambda v2648: ap(o_CodeOf_2637, subseq(v2638, v2648, v2648))) + ())

K8 = o_S_2659('ftp')
o_sFtp_10507 = K8
K9 = o_S_2659('file')
o_sFile_10510 = K9
K10 = o_S_2659('http')
o_sHttp_10513 = K10
K11 = o_S_2659('https')
o_sHttps_10516 = K11
K12 = o_S_2659('ws')
o_sWs_10519 = K12
K13 = o_S_2659('wss')
o_sWss_10522 = K13
K14 = frozenset((o_sFtp_10507, o_sFile_10510, o_sHttp_10513, o_sHttps_10516, o_sWs_10519, o_sWss_10522, ))
o_SpecialSchemes_10533 = K14
K15 = frozenset((2, 3, 4, 5, ))

def o_IsSpecialScheme_10572(v10559):
    return ((len(v10559) in K15) and (v10559 in o_SpecialSchemes_10533))


def o_Special_10578(v10573):
    return o_IsSpecialScheme_10572(v10573['scheme'])


def o_Force_2856(v2852):
    return (v2852 + ())


def o_LowerC_2851(v2843):
    if o_IsUpper_2724(v2843):
        return (v2843 + 32)
    return v2843


def o_Lower_2882(v2857):
    if all((not o_IsUpper_2724(ap(v2857, v2862))) for v2862 in range(1, len(v2857) + 1)):
        return v2857
    return o_Force_2856(fcn(range(1, len(v2857) + 1), lambda v2874: o_LowerC_2851(ap(v2857, v2874))))


def o_HasCreds_10593(v10579):
    return ((len(v10579['user']) > 0) or (len(v10579['pass']) > 0))


def o_HostEmptyOrNull_10619(v10594):
    return ((v10594['host']['k'] == 'none') or ((v10594['host']['k'] == 'str') and (len(v10594['host']['v']) == 0)))


def o_Done_10970(v10963):
    return exc(v10963, ('st', ), lambda at: 'done')

K16 = frozenset((o_sHttp_10513, o_sWs_10519, ))
K17 = frozenset((o_sHttps_10516, o_sWss_10522, ))

def o_DefaultPort_10558(v10534):
    if (v10534 == o_sFtp_10507):
        return 21
    if (v10534 in K16):
        return 80
    if (v10534 in K17):
        return 443
    return (-2)


def o_GotoU_10919(v10901, v10902, v10903, v10904):
    return exc(exc(exc(v10901, ('st', ), lambda at: v10902), ('i', ), lambda at: v10903()), ('url', ), lambda at: v10904())

o_cSL_2684 = 47

def o_Slash2_10993(v10974, v10975):
    return ((o_Ch_2834(v10974['inp'], v10975) == o_cSL_2684) and (o_Ch_2834(v10974['inp'], (v10975 + 1)) == o_cSL_2684))


def o_Err_10930(v10920, v10921):
    return exc(v10920, ('errs', ), lambda at: app(at, v10921))

K18 = ((), )

def o_Scheme_11239(v11027, v11028):
    v11036 = o_NotSchemeScan_10671(v11027['inp'], v11028['i'])
    v11048 = Th(lambda: o_Lower_2882(subseq(v11027['inp'], v11028['i'], (v11036 - 1))))
    v11052 = Th(lambda: v11028['url'])
    v11059 = Th(lambda: exc(v11052(), ('scheme', ), lambda at: v11048()))
    v11062 = Th(lambda: o_IsSpecialScheme_10572(v11048()))
    if (o_Ch_2834(v11027['inp'], v11036) != o_cCOLON_2688):
        if (v11027['ovr'] == ''):
            return o_Goto_10900(v11028, 'no scheme', Th(lambda: v11028['i']))
        return o_Fail_10962(v11028, (lambda: 'URLParseError'))
    if (v11027['ovr'] != ''):
        if ((o_Special_10578(v11052()) != v11062()) or ((o_HasCreds_10593(v11052()) or (v11052()['port'] != (-1))) and (v11048() == o_sFile_10510)) or ((v11052()['scheme'] == o_sFile_10510) and o_HostEmptyOrNull_10619(v11052()))):
            return o_Done_10970(v11028)
        return o_Done_10970(exc(v11028, ('url', ), lambda at: (exc(v11059(), ('port', ), lambda at: (-1)) if ((v11052()['port'] != (-1)) and (v11052()['port'] == o_DefaultPort_10558(v11048()))) else v11059())))
    if (v11048() == o_sFile_10510):
        return o_GotoU_10919((v11028 if o_Slash2_10993(v11027, (v11036 + 1)) else o_Err_10930(v11028, 'special-scheme-missing-following-solidus')), 'file', Th(lambda: (v11036 + 1)), Th(lambda: v11059()))
    if ((v11062() and (len(v11027['base']) == 1)) and (ap(v11027['base'], 1)['scheme'] == v11048())):
        return o_GotoU_10919(v11028, 'special relative or authority', Th(lambda: (v11036 + 1)), Th(lambda: v11059()))
    if v11062():
        return o_GotoU_10919(v11028, 'special authority slashes', Th(lambda: (v11036 + 1)), Th(lambda: v11059()))
    if (o_Ch_2834(v11027['inp'], (v11036 + 1)) == o_cSL_2684):
        return o_GotoU_10919(v11028, 'path or authority', Th(lambda: (v11036 + 2)), Th(lambda: v11059()))
    return o_GotoU_10919(v11028, 'opaque path', Th(lambda: (v11036 + 1)), Th(lambda: exc(exc(v11059(), ('opq', ), lambda at: True), ('path', ), lambda at: K18)))

o_cHASH_2672 = 35
o_NonEmptyQ_10973 = K18

def o_NoScheme_11342(v11240, v11241):
    v11249 = Th(lambda: o_Ch_2834(v11240['inp'], v11241['i']))
    if ((len(v11240['base']) == 0) or (ap(v11240['base'], 1)['opq'] and (v11249() != o_cHASH_2672))):
        return o_Fail_10962(o_Err_10930(v11241, 'missing-scheme-non-relative-URL'), (lambda: 'URLParseError'))
    v11278 = ap(v11240['base'], 1)
    if v11278['opq']:
        return o_GotoU_10919(v11241, 'fragment', Th(lambda: (v11241['i'] + 1)), Th(lambda: exc(exc(exc(exc(exc(v11241['url'], ('scheme', ), lambda at: v11278['scheme']), ('opq', ), lambda at: True), ('path', ), lambda at: v11278['path']), ('query', ), lambda at: v11278['query']), ('frag', ), lambda at: o_NonEmptyQ_10973)))
    if (v11278['scheme'] != o_sFile_10510):
        return o_Goto_10900(v11241, 'relative', Th(lambda: v11241['i']))
    return o_Goto_10900(v11241, 'file', Th(lambda: v11241['i']))


def o_SpecialRelOrAuth_11367(v11343, v11344):
    if o_Slash2_10993(v11343, v11344['i']):
        return o_Goto_10900(v11344, 'special authority ignore slashes', Th(lambda: (v11344['i'] + 2)))
    return o_Goto_10900(o_Err_10930(v11344, 'special-scheme-missing-following-solidus'), 'relative', Th(lambda: v11344['i']))


def o_PathOrAuth_11394(v11368, v11369):
    if (o_Ch_2834(v11368['inp'], v11369['i']) == o_cSL_2684):
        return o_Goto_10900(v11369, 'authority', Th(lambda: (v11369['i'] + 1)))
    return o_Goto_10900(v11369, 'path', Th(lambda: v11369['i']))

o_cBS_2700 = 92
o_cQ_2694 = 63

def o_IsNormDrive_10717(v10701):
    return (((len(v10701) == 2) and o_IsAlpha_2740(ap(v10701, 1))) and (ap(v10701, 2) == o_cCOLON_2688))


def o_Shorten_10867(v10825):
    if (len(v10825['path']) == 0):
        return v10825
    if (((v10825['scheme'] == o_sFile_10510) and (len(v10825['path']) == 1)) and o_IsNormDrive_10717(ap(v10825['path'], 1))):
        return v10825
    return exc(v10825, ('path', ), lambda at: subseq(at, 1, (len(at) - 1)))


def o_Relative_11553(v11395, v11396):
    v11402 = Th(lambda: ap(v11395['base'], 1))
    v11410 = o_Ch_2834(v11395['inp'], v11396['i'])
    v11421 = Th(lambda: exc(v11396['url'], ('scheme', ), lambda at: v11402()['scheme']))
    v11460 = Th(lambda: exc(exc(exc(exc(exc(exc(v11421(), ('user', ), lambda at: v11402()['user']), ('pass', ), lambda at: v11402()['pass']), ('host', ), lambda at: v11402()['host']), ('port', ), lambda at: v11402()['port']), ('path', ), lambda at: v11402()['path']), ('query', ), lambda at: v11402()['query']))
    if (v11410 == o_cSL_2684):
        return o_GotoU_10919(v11396, 'relative slash', Th(lambda: (v11396['i'] + 1)), Th(lambda: v11421()))
    if (o_Special_10578(v11421()) and (v11410 == o_cBS_2700)):
        return o_GotoU_10919(o_Err_10930(v11396, 'invalid-reverse-solidus'), 'relative slash', Th(lambda: (v11396['i'] + 1)), Th(lambda: v11421()))
    if (v11410 == o_cQ_2694):
        return o_GotoU_10919(v11396, 'query', Th(lambda: (v11396['i'] + 1)), Th(lambda: exc(v11460(), ('query', ), lambda at: o_NonEmptyQ_10973)))
    if (v11410 == o_cHASH_2672):
        return o_GotoU_10919(v11396, 'fragment', Th(lambda: (v11396['i'] + 1)), Th(lambda: exc(v11460(), ('frag', ), lambda at: o_NonEmptyQ_10973)))
    if (v11410 != o_EOFC_2662):
        return o_GotoU_10919(v11396, 'path', Th(lambda: v11396['i']), Th(lambda: o_Shorten_10867(exc(v11460(), ('query', ), lambda at: ()))))
    return o_Done_10970(exc(v11396, ('url', ), lambda at: v11460()))

K19 = frozenset((o_cSL_2684, o_cBS_2700, ))

def o_RelativeSlash_11643(v11554, v11555):
    v11561 = Th(lambda: ap(v11554['base'], 1))
    v11569 = o_Ch_2834(v11554['inp'], v11555['i'])
    if (o_Special_10578(v11555['url']) and (v11569 in K19)):
        return o_Goto_10900((o_Err_10930(v11555, 'invalid-reverse-solidus') if (v11569 == o_cBS_2700) else v11555), 'special authority ignore slashes', Th(lambda: (v11555['i'] + 1)))
    if (v11569 == o_cSL_2684):
        return o_Goto_10900(v11555, 'authority', Th(lambda: (v11555['i'] + 1)))
    return o_GotoU_10919(v11555, 'path', Th(lambda: v11555['i']), Th(lambda: exc(exc(exc(exc(v11555['url'], ('user', ), lambda at: v11561()['user']), ('pass', ), lambda at: v11561()['pass']), ('host', ), lambda at: v11561()['host']), ('port', ), lambda at: v11561()['port'])))


def o_SpecialAuthSlashes_11668(v11644, v11645):
    if o_Slash2_10993(v11644, v11645['i']):
        return o_Goto_10900(v11645, 'special authority ignore slashes', Th(lambda: (v11645['i'] + 2)))
    return o_Goto_10900(o_Err_10930(v11645, 'special-scheme-missing-following-solidus'), 'special authority ignore slashes', Th(lambda: v11645['i']))


def o_Copies_3072(v3058, v3059):
    if (v3059 <= 0):
        return ()
    return o_Force_2856(fcn(range(1, v3059 + 1), lambda v3067: v3058))


def o_ErrN_10949(v10931, v10932, v10933):
    if (v10933 == 0):
        return v10931
    return exc(v10931, ('errs', ), lambda at: (at + o_Copies_3072(v10932, v10933)))


def o_LAMBDA_11687(v11681):
    return (v11681 not in K19)


def o_SpecialAuthIgnore_11715(v11669, v11670):
    v11690 = sel_first(v11669['inp'], v11670['i'], len(v11669['inp']), (lambda v11681: (v11681 not in K19)))
    v11702 = ((len(v11669['inp']) + 1) if (v11690 == 0) else v11690)
    return o_Goto_10900(o_ErrN_10949(v11670, 'special-scheme-missing-following-solidus', (v11702 - v11670['i'])), 'authority', Th(lambda: v11702))


def o_LAMBDA_2894(v2890):
    return (v2890 in v2885)


def o_ScanTo_2908(v2883, v2884, v2885):
    v2897 = sel_first(v2883, v2884, len(v2883), (lambda v2890: (v2890 in v2885())))
    if (v2897 == 0):
        return (len(v2883) + 1)
    return v2897

K20 = frozenset((o_cSL_2684, o_cBS_2700, o_cQ_2694, o_cHASH_2672, ))
K21 = frozenset((o_cSL_2684, o_cQ_2694, o_cHASH_2672, ))

def o_AuthEnd_11729(v11716):
    if o_Special_10578(v11716):
        return K20
    return K21

o_cAT_2696 = 64

def o_LAMBDA_11757(v11753):
    return (v11753 == o_cAT_2696)


def o_NeedsEnc_6682(v6673, v6674):
    return ((v6673 > 126) or (v6673 in v6674))

o_cPCT_2674 = 37

def o_HexUpper_3147(v3136):
    if (v3136 < 10):
        return (48 + v3136)
    return (55 + v3136)


def o_PctByte_6694(v6683):
    return (o_cPCT_2674, o_HexUpper_3147((v6683 // 16)), o_HexUpper_3147((v6683 % 16)), )


def o_LAMBDA_6702(v6696, v6697):
    return (v6696 + o_PctByte_6694(v6697))


def o_PctBytes_6707(v6695):
    return reduce((lambda v6696, v6697: (v6696 + o_PctByte_6694(v6697))), v6695, ())


def o_Utf8_3364(v3295):
    if (v3295 < 128):
        return (v3295, )
    if (v3295 < 2048):
        return ((192 + (v3295 // 64)), (128 + (v3295 % 64)), )
    if (v3295 < 65536):
        return ((224 + (v3295 // 4096)), (128 + ((v3295 // 64) % 64)), (128 + (v3295 % 64)), )
    return ((240 + (v3295 // 262144)), (128 + ((v3295 // 4096) % 64)), (128 + ((v3295 // 64) % 64)), (128 + (v3295 % 64)), )


def o_LAMBDA_6740(v6726, v6727):
    if o_NeedsEnc_6682(v6727, v6709):
        return (v6726 + o_PctBytes_6707(o_Utf8_3364(v6727)))
    return app(v6726, v6727)


def o_PctEnc_6747(v6708, v6709):
    v6712 = o_Norm_3294(v6708)
    if all((not o_NeedsEnc_6682(ap(v6712, v6717), v6709)) for v6717 in range(1, len(v6712) + 1)):
        return v6712
    return reduce((lambda v6726, v6727: ((v6726 + o_PctBytes_6707(o_Utf8_3364(v6727))) if o_NeedsEnc_6682(v6727, v6709) else app(v6726, v6727))), v6712, ())

K22 = frozenset((127, ))
K23 = (frozenset(range(0, 31 + 1)) | frozenset(K22))
o_C0Set_6637 = K23

def o_SetOf_6630(v6617):
    return frozenset([ap(o_CodeOf_2637, subseq(v6617, v6622, v6622)) for v6622 in range(1, len(v6617) + 1)])

K24 = o_SetOf_6630(' "#<>')
K25 = (frozenset(o_C0Set_6637) | frozenset(K24))
o_QuerySet_6647 = K25
K26 = o_SetOf_6630('?`{}')
K27 = (frozenset(o_QuerySet_6647) | frozenset(K26))
o_PathSet_6657 = K27
K28 = o_SetOf_6630('/:;=@[\\]^|')
K29 = (frozenset(o_PathSet_6657) | frozenset(K28))
o_UserinfoSet_6662 = K29

def o_LAMBDA_3085(v3075, v3076):
    if (v3076 == v3074):
        return (v3075 + 1)
    return v3075


def o_CountC_3090(v3073, v3074):
    return reduce((lambda v3075, v3076: ((v3075 + 1) if (v3076 == v3074) else v3075)), v3073, 0)

K30 = frozenset((o_cCOLON_2688, ))

def o_Authority_11858(v11730, v11731):
    v11743 = o_ScanTo_2908(v11730['inp'], v11731['i'], Th(lambda: o_AuthEnd_11729(v11731['url'])))
    v11760 = Th(lambda: sel_last(v11730['inp'], v11731['i'], (v11743 - 1), (lambda v11753: (v11753 == o_cAT_2696))))
    v11771 = Th(lambda: subseq(v11730['inp'], v11731['i'], (v11760() - 1)))
    v11777 = Th(lambda: o_ScanTo_2908(v11771(), 1, Th(lambda: K30)))
    v11809 = Th(lambda: exc(exc(v11731['url'], ('user', ), lambda at: (at + o_PctEnc_6747(subseq(v11771(), 1, (v11777() - 1)), o_UserinfoSet_6662))), ('pass', ), lambda at: (at + o_PctEnc_6747(subseq(v11771(), (v11777() + 1), len(v11771())), o_UserinfoSet_6662))))
    v11823 = Th(lambda: o_ErrN_10949(exc(v11731, ('url', ), lambda at: v11809()), 'invalid-credentials', (o_CountC_3090(v11771(), o_cAT_2696) + 1)))
    if ((v11743 <= v11731['i']) or (v11760() == 0)):
        return o_Goto_10900(v11731, 'host', Th(lambda: v11731['i']))
    if (v11760() == (v11743 - 1)):
        return o_Fail_10962(o_Err_10930(v11823(), 'invalid-credentials'), (lambda: 'URLParseError'))
    return o_Goto_10900(v11823(), 'host', Th(lambda: (v11760() + 1)))

o_cLB_2698 = 91
o_cRB_2702 = 93

def o_HostEnd_11864(v11865, v11866, v11867, v11868):
    if (v11866 > len(v11865)):
        return v11866
    v11877 = ap(v11865, v11866)
    if ((v11877 == o_cCOLON_2688) and (not v11867())):
        return v11866
    if (v11877 in v11868()):
        return v11866
    return o_HostEnd_11864(v11865, (v11866 + 1), Th(lambda: (True if (v11877 == o_cLB_2698) else (False if (v11877 == o_cRB_2702) else v11867()))), (lambda: v11868()))


def o_WithHost_11936(v11910, v11911, v11912):
    v11923 = exc(v11910, ('errs', ), lambda at: (at + v11911['errs']))
    if v11911['ok']:
        return v11912(v11923)
    return o_Fail_10962(v11923, Th(lambda: v11911['fail']))


def o_HOk_9056(v9038, v9039):
    return {'ok': True, 'h': v9038, 'errs': v9039, 'fail': '', 'known': True}


def o_StrHost_8761(v8753):
    return {'k': 'str', 'v': v8753}

K31 = o_StrHost_8761(())
o_EmptyHost_8764 = K31
o_NullHost_8752 = {'k': 'none', 'v': ()}

def o_HFail_9075(v9057, v9058):
    return {'ok': False, 'h': o_NullHost_8752, 'errs': v9058, 'fail': v9057, 'known': True}


def o_V6Fail_9479(v9467, v9468):
    return exc(exc(v9467, ('done', ), lambda at: True), ('fail', ), lambda at: v9468())


def o_IsDigit_2715(v2707):
    return ((v2707 >= 48) and (v2707 <= 57))


def o_IsHex_2767(v2748):
    return ((o_IsDigit_2715(v2748) or ((v2748 >= 65) and (v2748 <= 70))) or ((v2748 >= 97) and (v2748 <= 102)))


def o_HexVal_2786(v2768):
    if (v2768 <= 57):
        return (v2768 - 48)
    if (v2768 <= 70):
        return (v2768 - 55)
    return (v2768 - 87)


def o_V6Hex_9428(v9429, v9430, v9431, v9432):
    while True:
        if (((v9431 < 4) and (v9430 <= len(v9429))) and o_IsHex_2767(ap(v9429, v9430))):
            v9430, v9431, v9432 = (v9430 + 1), (v9431 + 1), ((v9432 * 16) + o_HexVal_2786(ap(v9429, v9430)))
            continue
        return (v9430, v9431, v9432, )

o_cDOT_2682 = 46

def o_V6Dec_9484(v9485, v9486, v9487):
    while True:
        if ((v9486 <= len(v9485)) and o_IsDigit_2715(ap(v9485, v9486))):
            v9502 = Th(lambda: (ap(v9485, v9486) - 48))
            if (v9487 == (-1)):
                v9486, v9487 = (v9486 + 1), v9502()
                continue
            if (v9487 == 0):
                return (v9486, 0, 'IPv4-in-IPv6-invalid-code-point', )
            if (((v9487 * 10) + v9502()) > 255):
                return (v9486, 0, 'IPv4-in-IPv6-out-of-range-part', )
            v9486, v9487 = (v9486 + 1), ((v9487 * 10) + v9502())
            continue
        return (v9486, v9487, '', )


def o_SetPiece_9422(v9411, v9412, v9413):
    return exc(v9411, ((v9412() + 1), ), lambda at: v9413())

K32 = frozenset((2, 4, ))

def o_V6V4_9554(v9555, v9556, v9557):
    while True:
        if (v9556['p'] > len(v9555)):
            if (v9557 != 4):
                return o_V6Fail_9479(v9556, (lambda: 'IPv4-in-IPv6-too-few-parts'))
            return exc(v9556, ('done', ), lambda at: True)
        v9592 = Th(lambda: (((v9557 > 0) and (ap(v9555, v9556['p']) == o_cDOT_2682)) and (v9557 < 4)))
        v9605 = Th(lambda: ((v9556['p'] + 1) if (v9557 > 0) else v9556['p']))
        if ((v9557 > 0) and (not v9592())):
            return o_V6Fail_9479(v9556, (lambda: 'IPv4-in-IPv6-invalid-code-point'))
        if ((v9605() > len(v9555)) or (not o_IsDigit_2715(ap(v9555, v9605())))):
            return o_V6Fail_9479(v9556, (lambda: 'IPv4-in-IPv6-invalid-code-point'))
        v9633 = o_V6Dec_9484(v9555, v9605(), (-1))
        if (ap(v9633, 3) != ''):
            return o_V6Fail_9479(v9556, Th(lambda: ap(v9633, 3)))
        v9556, v9557 = exc(exc(exc(v9556, ('p', ), lambda at: ap(v9633, 1)), ('a', ), lambda at: o_SetPiece_9422(v9556['a'], Th(lambda: v9556['n']), Th(lambda: ((ap(v9556['a'], (v9556['n'] + 1)) * 256) + ap(v9633, 2))))), ('n', ), lambda at: ((v9556['n'] + 1) if ((v9557 + 1) in K32) else v9556['n'])), (v9557 + 1)
        continue


def o_V6Step_9868(v9707, v9708):
    if (v9708['p'] > len(v9707)):
        return exc(v9708, ('done', ), lambda at: True)
    if (v9708['n'] == 8):
        return o_V6Fail_9479(v9708, (lambda: 'IPv6-too-many-pieces'))
    if (ap(v9707, v9708['p']) == o_cCOLON_2688):
        if (v9708['comp'] != 0):
            return o_V6Fail_9479(v9708, (lambda: 'IPv6-multiple-compression'))
        return exc(exc(exc(v9708, ('p', ), lambda at: (at + 1)), ('n', ), lambda at: (at + 1)), ('comp', ), lambda at: (v9708['n'] + 2))
    v9774 = o_V6Hex_9428(v9707, v9708['p'], 0, 0)
    v9778 = ap(v9774, 1)
    v9782 = o_Ch_2834(v9707, v9778)
    if (v9782 == o_cDOT_2682):
        if (ap(v9774, 2) == 0):
            return o_V6Fail_9479(v9708, (lambda: 'IPv4-in-IPv6-invalid-code-point'))
        if (v9708['n'] > 6):
            return o_V6Fail_9479(v9708, (lambda: 'IPv4-in-IPv6-too-many-pieces'))
        return o_V6V4_9554(v9707, v9708, 0)
    if ((v9782 == o_cCOLON_2688) and (v9778 == len(v9707))):
        return o_V6Fail_9479(v9708, (lambda: 'IPv6-invalid-code-point'))
    if ((v9782 != o_cCOLON_2688) and (v9782 != o_EOFC_2662)):
        return o_V6Fail_9479(v9708, (lambda: 'IPv6-invalid-code-point'))
    return exc(exc(exc(v9708, ('p', ), lambda at: ((v9778 + 1) if (v9782 == o_cCOLON_2688) else v9778)), ('a', ), lambda at: o_SetPiece_9422(v9708['a'], Th(lambda: v9708['n']), Th(lambda: ap(v9774, 3)))), ('n', ), lambda at: (at + 1))


def o_V6Run_9872(v9873, v9874):
    while True:
        if v9874['done']:
            return v9874
        v9874 = o_V6Step_9868(v9873, v9874)
        continue

K33 = (0, 0, 0, 0, 0, 0, 0, 0, )
o_V6Start_9912 = {'p': 1, 'n': 0, 'comp': 0, 'a': K33, 'done': False, 'fail': ''}

def o_V6Expand_9959(v9913):
    v9919 = Th(lambda: (v9913()['comp'] - 1))
    v9925 = Th(lambda: (v9913()['n'] - v9919()))
    return fcn(range(1, 8 + 1), lambda v9929: (ap(v9913()['a'], v9929) if (v9929 <= v9919()) else (ap(v9913()['a'], (v9919() + (v9929 - (8 - v9925())))) if (v9929 > (8 - v9925())) else 0)))


def o_IPv6Parse_10056(v9960):
    v9972 = ((o_Ch_2834(v9960, 1) == o_cCOLON_2688) and (o_Ch_2834(v9960, 2) != o_cCOLON_2688))
    v9994 = Th(lambda: (exc(exc(exc(o_V6Start_9912, ('p', ), lambda at: 3), ('n', ), lambda at: 1), ('comp', ), lambda at: 2) if (o_Ch_2834(v9960, 1) == o_cCOLON_2688) else o_V6Start_9912))
    v9998 = Th(lambda: o_V6Run_9872(v9960, v9994()))
    def v10004(v9999):
        return o_HFail_9075('IPv6AddressParseError', (v9999, ))
    if v9972:
        return v10004('IPv6-invalid-compression')
    if (v9998()['fail'] != ''):
        return v10004(v9998()['fail'])
    if (v9998()['comp'] != 0):
        return o_HOk_9056({'k': 'v6', 'v': o_Force_2856(o_V6Expand_9959(Th(lambda: v9998())))}, ())
    if (v9998()['n'] != 8):
        return v10004('IPv6-too-few-pieces')
    return o_HOk_9056({'k': 'v6', 'v': v9998()['a']}, ())

K34 = frozenset((0, 9, 10, 13, ))
K35 = o_SetOf_6630(' #/:<>?@[\\]^|')
K36 = (frozenset(K34) | frozenset(K35))
o_ForbiddenHost_8773 = K36

def o_IsAlnum_2747(v2741):
    return (o_IsAlpha_2740(v2741) or o_IsDigit_2715(v2741))

K37 = o_SetOf_6630("!$&'()*+,-./:;=?@_~")
o_UrlAsciiPunct_6868 = K37

def o_IsUrlCodePoint_6900(v6869):
    return (o_IsAlnum_2747(v6869) or (v6869 in o_UrlAsciiPunct_6868) or (((v6869 >= 160) and (v6869 <= 1114109)) and (not o_IsSurrogate_2795(v6869)) and (not ((v6869 >= 64976) and (v6869 <= 65007))) and ((v6869 % 65536) < 65534)))


def o_BadPercentAt_6930(v6901, v6902):
    return ((ap(v6901, v6902) == o_cPCT_2674) and (not ((((v6902 + 2) <= len(v6901)) and o_IsHex_2767(ap(v6901, (v6902 + 1)))) and o_IsHex_2767(ap(v6901, (v6902 + 2))))))

K38 = ('host-invalid-code-point', )
K39 = o_HFail_9075('HostParseError', K38)
K40 = ('invalid-URL-unit', )

def o_OpaqueHostParse_10298(v10241):
    if any((ap(v10241, v10246) in o_ForbiddenHost_8773) for v10246 in range(1, len(v10241) + 1)):
        return K39
    return o_HOk_9056(o_StrHost_8761(o_PctEnc_6747(v10241, o_C0Set_6637)), ((K40 if any((not ((ap(v10241, v10265) == o_cPCT_2674) or o_IsUrlCodePoint_6900(ap(v10241, v10265)))) for v10265 in range(1, len(v10241) + 1)) else ()) + (K40 if any(o_BadPercentAt_6930(v10241, v10286) for v10286 in range(1, len(v10241) + 1)) else ())))


def o_AllAscii_3377(v3365):
    return all((ap(v3365, v3370) < 128) for v3370 in range(1, len(v3365) + 1))


def o_PlainAscii_8537(v8493):
    return (o_AllAscii_3377(v8493) and (not any(((((o_LowerC_2851(ap(v8493, v8502)) == 120) and (ap(v8493, (v8502 + 2)) == 45)) and (ap(v8493, (v8502 + 3)) == 45)) and (o_LowerC_2851(ap(v8493, (v8502 + 1))) == 110)) for v8502 in range(1, (len(v8493) - 3) + 1))))


def o_LAMBDA_8554(v8542):
    return ((v8542['d'] == v8539) and (v8542['strict'] == v8540))


def o_EnvLookup_8557(v8538, v8539, v8540):
    return tuple(filter((lambda v8542: ((v8542['d'] == v8539()) and (v8542['strict'] == v8540()))), v8538))

K41 = frozenset((223, 225, 228, 233, 241, 246, 252, 946, 954, 962, 1080, 1103, 1073, 26085, 26412, 28857, 9731, 127752, 12354, 128169, ))
o_ValidL_7167 = K41
K42 = frozenset((1488, 1489, 1513, ))
o_ValidR_7172 = K42
K43 = (225, )
K44 = (233, )
K45 = (252, )
K46 = (946, )
K47 = (1073, )
K48 = (97, )
K49 = (120, )
K50 = (48, )
K51 = (49, )
K52 = (55, )
K53 = (46, )
K54 = (102, 105, )
K55 = (37, )
K56 = (47, )
K57 = (35, )
K58 = (58, )
K59 = (64, )
K60 = (63, )
K61 = (92, )
K62 = (91, )
K63 = (107, )
K64 = (116, 101, 108, )
K65 = (50, )
K66 = (32, )
K67 = (176, 102, )
o_MapTo_7331 = merge(merge(merge(merge(merge(merge(merge(merge(merge(merge(merge(merge(merge(merge(merge(merge(merge(merge(merge(merge(merge(merge(merge(merge(merge(merge(merge(merge(merge(merge({193: K43}, {201: K44}), {220: K45}), {914: K46}), {1041: K47}), {65313: K48}), {65345: K48}), {65336: K49}), {65296: K50}), {65297: K51}), {65303: K52}), {65294: K53}), {12290: K53}), {65377: K53}), {64257: K54}), {65285: K55}), {65295: K56}), {65283: K57}), {65306: K58}), {65312: K59}), {65311: K60}), {65340: K61}), {65339: K62}), {8490: K63}), {8481: K64}), {178: K65}), {9312: K51}), {160: K66}), {12288: K66}), {170: K48}), {8457: K67})
K68 = frozenset((173, 8203, 65039, 8288, ))
o_Ignored_7337 = K68
K69 = frozenset((65533, 65535, 8206, 57344, 128, 888, ))
o_Disallowed_7345 = K69
K70 = frozenset((8204, 8205, ))
o_Joiners_7349 = K70
K71 = (frozenset(o_ValidL_7167) | frozenset(o_ValidR_7172))
K72 = (frozenset(K71) | frozenset(domain(o_MapTo_7331)))
K73 = (frozenset(K72) | frozenset(o_Ignored_7337))
K74 = (frozenset(K73) | frozenset(o_Disallowed_7345))
K75 = (frozenset(K74) | frozenset(o_Joiners_7349))
K76 = frozenset((176, ))
K77 = (frozenset(K75) | frozenset(K76))
o_KnownCP_7365 = K77

def o_LabelKnown_8177(v8159):
    return all(((ap(v8159, v8164) < 128) or (ap(v8159, v8164) in o_KnownCP_7365)) for v8164 in range(1, len(v8159) + 1))


def o_StartsWithAt_2967(v2937, v2938, v2939):
    return (((v2938 + (len(v2939) - 1)) <= len(v2937)) and all((ap(v2937, (v2938 + (v2953 - 1))) == ap(v2939, v2953)) for v2953 in range(1, len(v2939) + 1)))

K78 = o_S_2659('xn--')
o_ACE_7983 = K78

def o_IsAce_7989(v7984):
    return o_StartsWithAt_2967(v7984, 1, o_ACE_7983)


def o_PDigVal_7763(v7748):
    if o_IsDigit_2715(v7748):
        return (v7748 - 22)
    if o_IsLower_2733(v7748):
        return (v7748 - 97)
    return (-1)


def o_PThr_7502(v7483, v7484):
    if (v7483 <= (v7484 + 1)):
        return 1
    if (v7483 >= (v7484 + 26)):
        return 26
    return (v7483 - v7484)

K79 = (0, 0, )

def o_PInt_7771(v7772, v7773, v7774, v7775, v7776, v7777):
    if (v7773 > len(v7772)):
        return K79
    v7789 = o_PDigVal_7763(ap(v7772, v7773))
    v7793 = Th(lambda: o_PThr_7502(v7775, v7776))
    if (((v7789 < 0) or (v7777() > 40000000)) or (v7774() > 20000000)):
        return K79
    if (v7789 < v7793()):
        return ((v7773 + 1), (v7777() + (v7789 * v7774())), )
    return o_PInt_7771(v7772, (v7773 + 1), Th(lambda: (v7774() * (36 - v7793()))), (v7775 + 36), v7776, Th(lambda: (v7777() + (v7789 * v7774()))))


def o_Adapt_7470(v7422, v7423, v7424):
    v7433 = ((v7422 // 700) if v7424 else (v7422 // 2))
    v7439 = (v7433 + (v7433 // v7423))
    def v7443(v7444, v7445):
        if (v7444 > 455):
            return v7443((v7444 // 35), (v7445 + 36))
        return (v7445 + ((36 * v7444) // (v7444 + 38)))
    return v7443(v7439, 0)


def o_PDec_7850(v7851, v7852, v7853, v7854, v7855, v7856):
    if (v7852 > len(v7851)):
        return (v7856(), )
    v7870 = o_PInt_7771(v7851, v7852, (lambda: 1), 36, v7855(), (lambda: v7854()))
    v7875 = (len(v7856()) + 1)
    v7883 = Th(lambda: (v7853() + (ap(v7870, 2) // v7875)))
    v7889 = Th(lambda: (ap(v7870, 2) % v7875))
    if (((ap(v7870, 1) == 0) or (v7883() > 1114111)) or (v7883() < 128)):
        return ()
    return o_PDec_7850(v7851, ap(v7870, 1), Th(lambda: v7883()), Th(lambda: (v7889() + 1)), Th(lambda: o_Adapt_7470((ap(v7870, 2) - v7854()), v7875, (v7854() == 0))), Th(lambda: ((subseq(v7856(), 1, v7889()) + (v7883(), )) + subseq(v7856(), (v7889() + 1), len(v7856())))))

o_cDASH_2680 = 45

def o_LAMBDA_7947(v7943):
    return (v7943 == o_cDASH_2680)


def o_PunyDecode_7980(v7941):
    v7950 = (lambda s_: sel_last(s_, 1, len(s_), (lambda v7943: (v7943 == o_cDASH_2680))))(v7941)
    v7962 = Th(lambda: (subseq(v7941, 1, (v7950 - 1)) if (v7950 > 1) else ()))
    v7971 = ((v7950 + 1) if (v7950 > 0) else 1)
    return o_PDec_7850(v7941, v7971, (lambda: 128), (lambda: 0), (lambda: 72), Th(lambda: v7962()))


def o_DecodeLabel_8158(v8146):
    if o_IsAce_7989(v8146):
        return o_PunyDecode_7980(subseq(v8146, 5, len(v8146)))
    return (v8146, )


def o_SplitFrom_2973(v2974, v2975, v2976, v2977):
    while True:
        v2983 = o_ScanTo_2908(v2974, v2975, Th(lambda: frozenset((v2976, ))))
        v2990 = subseq(v2974, v2975, (v2983 - 1))
        if (v2983 > len(v2974)):
            return app(v2977, v2990)
        v2975, v2977 = (v2983 + 1), app(v2977, v2990)
        continue


def o_Split_3016(v3009, v3010):
    return o_SplitFrom_2973(v3009, 1, v3010, ())


def o_MapC_7403(v7380):
    if (v7380 < 128):
        return (o_LowerC_2851(v7380), )
    if (v7380 in o_Ignored_7337):
        return ()
    if (v7380 in domain(o_MapTo_7331)):
        return ap(o_MapTo_7331, v7380)
    return (v7380, )


def o_LAMBDA_7415(v7409, v7410):
    return (v7409 + o_MapC_7403(v7410))


def o_MapDomain_7421(v7404):
    if o_AllAscii_3377(v7404):
        return o_Lower_2882(v7404)
    return reduce((lambda v7409, v7410: (v7409 + o_MapC_7403(v7410))), v7404, ())


def o_LAMBDA_7569(v7561, v7562):
    if (v7562 < v7561):
        return v7562
    return v7561


def o_LAMBDA_7557(v7553):
    return (v7553 >= v7551)


def o_MinFrom_7575(v7550, v7551):
    v7560 = tuple(filter((lambda v7553: (v7553 >= v7551)), v7550))
    return reduce((lambda v7561, v7562: (v7562 if (v7562 < v7561) else v7561)), v7560, 2000000)


def o_PDigit_7482(v7471):
    if (v7471 < 26):
        return (97 + v7471)
    return (22 + v7471)


def o_PVar_7508(v7509, v7510, v7511, v7512):
    while True:
        v7516 = o_PThr_7502(v7510, v7511)
        if (v7509 < v7516):
            return app(v7512, o_PDigit_7482(v7509))
        v7509, v7510, v7512 = ((v7509 - v7516) // (36 - v7516)), (v7510 + 36), app(v7512, o_PDigit_7482((v7516 + ((v7509 - v7516) % (36 - v7516)))))
        continue


def o_LAMBDA_7639(v7580, v7581):
    if (v7581 < v7577):
        return exc(v7580, ('delta', ), lambda at: (at + 1))
    if (v7581 == v7577):
        return {'delta': 0, 'bias': o_Adapt_7470(v7580['delta'], (v7580['h'] + 1), (v7580['h'] == v7578)), 'h': (v7580['h'] + 1), 'out': o_PVar_7508(v7580['delta'], 36, v7580['bias'], v7580['out'])}
    return v7580


def o_PPass_7644(v7576, v7577, v7578, v7579):
    return reduce((lambda v7580, v7581: (exc(v7580, ('delta', ), lambda at: (at + 1)) if (v7581 < v7577()) else ({'delta': 0, 'bias': o_Adapt_7470(v7580['delta'], (v7580['h'] + 1), (v7580['h'] == v7578)), 'h': (v7580['h'] + 1), 'out': o_PVar_7508(v7580['delta'], 36, v7580['bias'], v7580['out'])} if (v7581 == v7577()) else v7580))), v7576, v7579)


def o_PEnc_7650(v7651, v7652, v7653, v7654):
    if (v7654['h'] >= len(v7651)):
        return v7654['out']
    v7667 = Th(lambda: o_MinFrom_7575(v7651, v7652()))
    v7684 = exc(v7654, ('delta', ), lambda at: (at + ((v7667() - v7652()) * (v7654['h'] + 1))))
    v7690 = o_PPass_7644(v7651, Th(lambda: v7667()), v7653(), v7684)
    return o_PEnc_7650(v7651, Th(lambda: (v7667() + 1)), (lambda: v7653()), exc(v7690, ('delta', ), lambda at: (at + 1)))


def o_LAMBDA_7713(v7709):
    return (v7709 < 128)


def o_PunyEncode_7747(v7707):
    v7716 = tuple(filter((lambda v7709: (v7709 < 128)), v7707))
    v7719 = len(v7716)
    v7728 = (app(v7716, o_cDASH_2680) if (v7719 > 0) else ())
    return o_PEnc_7650(v7707, (lambda: 128), Th(lambda: v7719), {'delta': 0, 'bias': 72, 'h': v7719, 'out': v7728})

K80 = frozenset((o_cDASH_2680, ))
K81 = (frozenset(K80) | frozenset(range(48, 57 + 1)))
K82 = (frozenset(K81) | frozenset(range(97, 122 + 1)))
K83 = frozenset((o_cDOT_2682, ))
K84 = (frozenset(K82) | frozenset(K83))
o_StdLetters_7379 = K84
K85 = frozenset((43, 45, ))
K86 = frozenset((35, 36, 37, 176, ))
K87 = frozenset((44, 46, 47, 58, ))
K88 = frozenset((9731, 127752, 128169, ))
K89 = (frozenset(range(9, 13 + 1)) | frozenset(range(28, 32 + 1)))

def o_BidiClass_8063(v7990):
    if (v7990 in o_ValidR_7172):
        return 'R'
    if o_IsDigit_2715(v7990):
        return 'EN'
    if o_IsAlpha_2740(v7990):
        return 'L'
    if (v7990 in K85):
        return 'ES'
    if (v7990 in K86):
        return 'ET'
    if (v7990 in K87):
        return 'CS'
    if (v7990 in K88):
        return 'ON'
    if (v7990 in K89):
        return 'WS'
    if ((v7990 < 32) or (v7990 == 127)):
        return 'BN'
    if (v7990 < 128):
        return 'ON'
    return 'L'

K90 = frozenset(('R', 'EN', 'ES', 'CS', 'ET', 'ON', 'BN', ))
K91 = frozenset(('R', 'EN', ))
K92 = frozenset(('L', 'EN', 'ES', 'CS', 'ET', 'ON', 'BN', ))
K93 = frozenset(('L', 'EN', ))

def o_LabelBidiOk_8145(v8064):
    if (len(v8064) == 0):
        return True
    v8081 = o_Force_2856(fcn(range(1, len(v8064) + 1), lambda v8074: o_BidiClass_8063(ap(v8064, v8074))))
    v8091 = Th(lambda: frozenset([ap(v8081, v8086) for v8086 in range(1, len(v8064) + 1)]))
    if (ap(v8081, 1) == 'R'):
        return (frozenset(v8091()).issubset(frozenset(K90)) and (ap(v8081, len(v8064)) in K91))
    if (ap(v8081, 1) == 'L'):
        return (frozenset(v8091()).issubset(frozenset(K92)) and (ap(v8081, len(v8064)) in K93))
    return False


def o_JoinFrom_3021(v3022, v3023, v3024):
    if (v3023 > len(v3022)):
        return ()
    if (v3023 == len(v3022)):
        return ap(v3022, v3023)
    return ((ap(v3022, v3023) + v3024) + o_JoinFrom_3021(v3022, (v3023 + 1), v3024))


def o_Join_3057(v3051, v3052):
    return o_JoinFrom_3021(v3051, 1, v3052)

K94 = (o_cDOT_2682, )

def o_Process_8492(v8178, v8179):
    v8182 = o_MapDomain_7421(v8178)
    v8186 = o_Split_3016(v8182, o_cDOT_2682)
    v8189 = len(v8186)
    v8200 = Th(lambda: o_Force_2856(fcn(range(1, v8189 + 1), lambda v8193: o_DecodeLabel_8158(ap(v8186, v8193)))))
    v8212 = all((len(ap(v8200(), v8204)) == 1) for v8204 in range(1, v8189 + 1))
    v8232 = o_Force_2856(fcn(range(1, v8189 + 1), lambda v8216: (ap(ap(v8200(), v8216), 1) if (len(ap(v8200(), v8216)) == 1) else ())))
    v8284 = ((len(v8178) <= 400) and all(((ap(v8178, v8241) < 128) or (ap(v8178, v8241) in o_KnownCP_7365)) for v8241 in range(1, len(v8178) + 1)) and all(o_LabelKnown_8177(ap(v8232, v8257)) for v8257 in range(1, v8189 + 1)) and all((not o_IsAce_7989(ap(v8186, v8266)) or (o_AllAscii_3377(ap(v8186, v8266)) and (not o_AllAscii_3377(ap(v8232, v8266))))) for v8266 in range(1, v8189 + 1)))
    def v8314(v8285):
        return (o_IsAce_7989(ap(v8186, v8285)) and ((o_MapDomain_7421(ap(v8232, v8285)) != ap(v8232, v8285)) or (o_PunyEncode_7747(ap(v8232, v8285)) != subseq(ap(v8186, v8285), 5, len(ap(v8186, v8285))))))
    def v8333(v8315):
        return (((v8315 in o_Disallowed_7345) or (v8315 in o_Joiners_7349)) or ((v8179 and (v8315 < 128)) and (v8315 not in o_StdLetters_7379)))
    v8354 = Th(lambda: any(any((ap(ap(v8232, v8337), v8344) in o_ValidR_7172) for v8344 in range(1, len(ap(v8232, v8337)) + 1)) for v8337 in range(1, v8189 + 1)))
    v8396 = ((not v8212) or any(v8314(v8360) for v8360 in range(1, v8189 + 1)) or any(any(v8333(ap(ap(v8232, v8367), v8374)) for v8374 in range(1, len(ap(v8232, v8367)) + 1)) for v8367 in range(1, v8189 + 1)) or (v8354() and any((not o_LabelBidiOk_8145(ap(v8232, v8387))) for v8387 in range(1, v8189 + 1))))
    v8417 = o_Force_2856(fcn(range(1, v8189 + 1), lambda v8400: (ap(v8232, v8400) if o_AllAscii_3377(ap(v8232, v8400)) else (o_ACE_7983 + o_PunyEncode_7747(ap(v8232, v8400))))))
    v8422 = o_Join_3057(v8417, K94)
    v8471 = (any((len(ap(v8417, v8426)) > 63) for v8426 in range(1, v8189 + 1)) or any(((len(ap(v8417, v8437)) == 0) and (not ((v8437 == v8189) and (v8189 > 1)))) for v8437 in range(1, v8189 + 1)) or (len(v8422) > (254 if ((v8189 > 1) and (len(ap(v8417, v8189)) == 0)) else 253)))
    return {'known': v8284, 'bad': v8396, 'a': v8422, 'len': v8471, 'u': o_Join_3057(v8232, K94)}


def o_DomainToASCII_8682(v8558, v8559, v8560):
    v8563 = o_Norm_3294(v8558)
    if (o_PlainAscii_8537(v8563) and (not v8559())):
        if (len(v8563) == 0):
            return {'st': 'fail', 'a': ()}
        return {'st': 'ok', 'a': o_Lower_2882(v8563)}
    v8593 = o_EnvLookup_8557(v8560(), Th(lambda: v8563), (lambda: v8559()))
    if (len(v8593) > 0):
        return {'st': ('refuse' if ap(v8593, 1)['refuse'] else ('fail' if ((ap(v8593, 1)['bad'] or (v8559() and ap(v8593, 1)['len'])) or (len(ap(v8593, 1)['a']) == 0)) else 'ok')), 'a': ap(v8593, 1)['a']}
    v8643 = o_Process_8492(v8563, v8559())
    return {'st': ('unknown' if (not v8643['known']) else ('fail' if ((v8643['bad'] or (v8559() and v8643['len'])) or (len(v8643['a']) == 0)) else 'ok')), 'a': v8643['a']}


def o_IsCont_3426(v3406, v3407, v3408, v3409):
    return (((v3407 <= len(v3406)) and (ap(v3406, v3407) >= v3408())) and (ap(v3406, v3407) <= v3409()))


def o_DecFrom_3431(v3432, v3433, v3434):
    while True:
        if (v3433 > len(v3432)):
            return v3434
        v3443 = ap(v3432, v3433)
        if (v3443 < 128):
            v3433, v3434 = (v3433 + 1), app(v3434, v3443)
            continue
        if ((v3443 >= 194) and (v3443 <= 223)):
            if o_IsCont_3426(v3432, (v3433 + 1), (lambda: 128), (lambda: 191)):
                v3433, v3434 = (v3433 + 2), app(v3434, (((v3443 - 192) * 64) + (ap(v3432, (v3433 + 1)) - 128)))
                continue
            v3433, v3434 = (v3433 + 1), app(v3434, o_cFFFD_2706)
            continue
        if ((v3443 >= 224) and (v3443 <= 239)):
            v3511 = Th(lambda: (160 if (v3443 == 224) else 128))
            v3518 = Th(lambda: (159 if (v3443 == 237) else 191))
            if (not o_IsCont_3426(v3432, (v3433 + 1), Th(lambda: v3511()), Th(lambda: v3518()))):
                v3433, v3434 = (v3433 + 1), app(v3434, o_cFFFD_2706)
                continue
            if (not o_IsCont_3426(v3432, (v3433 + 2), (lambda: 128), (lambda: 191))):
                v3433, v3434 = (v3433 + 2), app(v3434, o_cFFFD_2706)
                continue
            v3433, v3434 = (v3433 + 3), app(v3434, ((((v3443 - 224) * 4096) + ((ap(v3432, (v3433 + 1)) - 128) * 64)) + (ap(v3432, (v3433 + 2)) - 128)))
            continue
        if ((v3443 >= 240) and (v3443 <= 244)):
            v3597 = Th(lambda: (144 if (v3443 == 240) else 128))
            v3604 = Th(lambda: (143 if (v3443 == 244) else 191))
            if (not o_IsCont_3426(v3432, (v3433 + 1), Th(lambda: v3597()), Th(lambda: v3604()))):
                v3433, v3434 = (v3433 + 1), app(v3434, o_cFFFD_2706)
                continue
            if (not o_IsCont_3426(v3432, (v3433 + 2), (lambda: 128), (lambda: 191))):
                v3433, v3434 = (v3433 + 2), app(v3434, o_cFFFD_2706)
                continue
            if (not o_IsCont_3426(v3432, (v3433 + 3), (lambda: 128), (lambda: 191))):
                v3433, v3434 = (v3433 + 3), app(v3434, o_cFFFD_2706)
                continue
            v3433, v3434 = (v3433 + 4), app(v3434, (((((v3443 - 240) * 262144) + ((ap(v3432, (v3433 + 1)) - 128) * 4096)) + ((ap(v3432, (v3433 + 2)) - 128) * 64)) + (ap(v3432, (v3433 + 3)) - 128)))
            continue
        v3433, v3434 = (v3433 + 1), app(v3434, o_cFFFD_2706)
        continue


def o_Utf8Decode_3720(v3711):
    if o_AllAscii_3377(v3711):
        return v3711
    return o_DecFrom_3431(v3711, 1, ())


def o_HasC_2936(v2923, v2924):
    return any((ap(v2923, v2929) == v2924) for v2929 in range(1, len(v2923) + 1))


def o_PDecFrom_3725(v3726, v3727, v3728):
    while True:
        if (v3727 > len(v3726)):
            return v3728
        if ((((ap(v3726, v3727) == o_cPCT_2674) and ((v3727 + 2) <= len(v3726))) and o_IsHex_2767(ap(v3726, (v3727 + 1)))) and o_IsHex_2767(ap(v3726, (v3727 + 2)))):
            v3727, v3728 = (v3727 + 3), app(v3728, ((o_HexVal_2786(ap(v3726, (v3727 + 1))) * 16) + o_HexVal_2786(ap(v3726, (v3727 + 2)))))
            continue
        v3727, v3728 = (v3727 + 1), app(v3728, ap(v3726, v3727))
        continue


def o_PercentDecode_3804(v3794):
    if o_HasC_2936(v3794, o_cPCT_2674):
        return o_PDecFrom_3725(v3794, 1, ())
    return v3794


def o_LAMBDA_3398(v3385, v3386):
    if (v3386 < 128):
        return app(v3385, v3386)
    return (v3385 + o_Utf8_3364(v3386))


def o_Utf8Encode_3405(v3378):
    v3381 = o_Norm_3294(v3378)
    if o_AllAscii_3377(v3381):
        return v3381
    return reduce((lambda v3385, v3386: (app(v3385, v3386) if (v3386 < 128) else (v3385 + o_Utf8_3364(v3386)))), v3381, ())


def o_StringPercentDecode_3809(v3805):
    return o_PercentDecode_3804(o_Utf8Encode_3405(v3805))


def o_HUnknown_9094(v9076):
    return {'ok': False, 'h': o_NullHost_8752, 'errs': (v9076, ), 'fail': 'unknown', 'known': False}

K95 = (frozenset(o_ForbiddenHost_8773) | frozenset(range(0, 31 + 1)))
K96 = frozenset((37, 127, ))
K97 = (frozenset(K95) | frozenset(K96))
o_ForbiddenDomain_8783 = K97

def o_From_2842(v2835, v2836):
    return subseq(v2835, v2836, len(v2835))


def o_DigitOk_8852(v8826, v8827):
    if (v8827 == 10):
        return o_IsDigit_2715(v8826)
    if (v8827 == 8):
        return ((v8826 >= 48) and (v8826 <= 55))
    if (v8827 == 16):
        return o_IsHex_2767(v8826)
    return no_case()


def o_LAMBDA_8818(v8786, v8787):
    v8796 = ((ap(v8786, 2) * v8785) + o_HexVal_2786(v8787))
    v8806 = ((ap(v8786, 1) * v8785) + (v8796 // 65536))
    return ((16777216 if (v8806 > 16777216) else v8806), (v8796 % 65536), )


def o_Num_8825(v8784, v8785):
    return reduce((lambda v8786, v8787: (lambda v8796: (lambda v8806: ((16777216 if (v8806() > 16777216) else v8806()), (v8796() % 65536), ))(Th(lambda: ((ap(v8786, 1) * v8785()) + (v8796() // 65536)))))(Th(lambda: ((ap(v8786, 2) * v8785()) + o_HexVal_2786(v8787))))), v8784, K79)

K98 = frozenset((120, 88, ))

def o_IPv4Number_8978(v8853):
    if (len(v8853) == 0):
        return {'ok': False, 'err': False, 'n': K79}
    v8903 = (16 if (((len(v8853) >= 2) and (ap(v8853, 1) == 48)) and (ap(v8853, 2) in K98)) else (8 if ((len(v8853) >= 2) and (ap(v8853, 1) == 48)) else 10))
    v8919 = (o_From_2842(v8853, 3) if (v8903 == 16) else (o_From_2842(v8853, 2) if (v8903 == 8) else v8853))
    if (len(v8919) == 0):
        return {'ok': True, 'err': True, 'n': K79}
    if any((not o_DigitOk_8852(ap(v8919, v8940), v8903)) for v8940 in range(1, len(v8919) + 1)):
        return {'ok': False, 'err': True, 'n': K79}
    return {'ok': True, 'err': (v8903 != 10), 'n': o_Num_8825(v8919, Th(lambda: v8903))}


def o_EndsInNumber_9037(v8979):
    v8983 = o_Split_3016(v8979, o_cDOT_2682)
    v8986 = len(v8983)
    if ((len(ap(v8983, v8986)) == 0) and (v8986 == 1)):
        return False
    v9013 = (ap(v8983, (v8986 - 1)) if (len(ap(v8983, v8986)) == 0) else ap(v8983, v8986))
    return (((len(v9013) > 0) and all(o_IsDigit_2715(ap(v9013, v9022)) for v9022 in range(1, len(v9013) + 1))) or o_IPv4Number_8978(v9013)['ok'])


def o_LAMBDA_9161(v9156):
    return (not v9156['ok'])


def o_LAMBDA_9186(v9176, v9177):
    if v9177['err']:
        return (v9176 + 1)
    return v9176

K99 = ('IPv4-empty-part', )

def o_IPv4Parse_9372(v9095):
    v9099 = o_Split_3016(v9095, o_cDOT_2682)
    v9102 = len(v9099)
    v9113 = (K99 if (len(ap(v9099, v9102)) == 0) else ())
    v9132 = (subseq(v9099, 1, (v9102 - 1)) if ((len(ap(v9099, v9102)) == 0) and (v9102 > 1)) else v9099)
    v9135 = len(v9132)
    if (v9135 > 4):
        return o_HFail_9075('IPv4AddressParseError', app(v9113, 'IPv4-too-many-parts'))
    v9154 = o_Force_2856(fcn(range(1, v9135 + 1), lambda v9147: o_IPv4Number_8978(ap(v9132, v9147))))
    v9164 = (lambda s_: sel_first(s_, 1, len(s_), (lambda v9156: (not v9156['ok']))))(v9154)
    v9173 = (v9135 if (v9164 == 0) else (v9164 - 1))
    v9196 = (v9113 + o_Copies_3072('IPv4-non-decimal-part', reduce((lambda v9176, v9177: ((v9176 + 1) if v9177['err'] else v9176)), subseq(v9154, 1, v9173), 0)))
    def v9213(v9197):
        return ((ap(v9197['n'], 1) > 0) or (ap(v9197['n'], 2) > 255))
    v9228 = Th(lambda: (app(v9196, 'IPv4-out-of-range-part') if any(v9213(ap(v9154, v9217)) for v9217 in range(1, v9135 + 1)) else v9196))
    v9234 = Th(lambda: ap(v9154, v9135)['n'])
    v9278 = Th(lambda: ((ap(v9234(), 1) > 65535) if (v9135 == 1) else ((ap(v9234(), 1) > 255) if (v9135 == 2) else ((ap(v9234(), 1) > 0) if (v9135 == 3) else (((ap(v9234(), 1) > 0) or (ap(v9234(), 2) > 255)) if (v9135 == 4) else no_case())))))
    if (v9164 != 0):
        return o_HFail_9075('IPv4AddressParseError', app(v9196, 'IPv4-non-numeric-part'))
    if any(v9213(ap(v9154, v9292)) for v9292 in range(1, (v9135 - 1) + 1)):
        return o_HFail_9075('IPv4AddressParseError', app(v9228(), 'undefined'))
    if v9278():
        return o_HFail_9075('IPv4AddressParseError', app(v9228(), 'undefined'))
    def v9322(v9309):
        if (v9309 < v9135):
            return ap(ap(v9154, v9309)['n'], 2)
        return 0
    v9339 = (((v9322(1) * 256) + (v9322(2) if (v9135 > 1) else 0)) + ap(v9234(), 1))
    v9353 = (((v9322(3) * 256) if (v9135 > 2) else 0) + ap(v9234(), 2))
    return o_HOk_9056({'k': 'v4', 'v': (v9339, v9353, )}, v9228())

K100 = o_HOk_9056(o_EmptyHost_8764, ())
K101 = ('IPv6-unclosed', )
K102 = o_HFail_9075('IPv6AddressParseError', K101)
K103 = ('domain-to-ASCII', )
K104 = o_HFail_9075('IDNAError', K103)
K105 = o_HFail_9075('HostParseError', K103)
K106 = ('domain-invalid-code-point', )
K107 = o_HFail_9075('HostParseError', K106)

def o_HostParse_10412(v10299, v10300, v10301):
    if (len(v10299) == 0):
        return K100
    if (ap(v10299, 1) == o_cLB_2698):
        if (ap(v10299, len(v10299)) != o_cRB_2702):
            return K102
        return o_IPv6Parse_10056(subseq(v10299, 2, (len(v10299) - 1)))
    if v10300():
        return o_OpaqueHostParse_10298(v10299)
    v10339 = o_Utf8Decode_3720(o_StringPercentDecode_3809(v10299))
    v10344 = o_DomainToASCII_8682(v10339, (lambda: False), (lambda: v10301()))
    if (v10344['st'] == 'unknown'):
        return o_HUnknown_9094(v10339)
    if (v10344['st'] == 'refuse'):
        return K104
    if (v10344['st'] == 'fail'):
        return K105
    if any((ap(v10344['a'], v10376) in o_ForbiddenDomain_8783) for v10376 in range(1, len(v10344['a']) + 1)):
        return K107
    if o_EndsInNumber_9037(v10344['a']):
        return o_IPv4Parse_9372(v10344['a'])
    return o_HOk_9056(o_StrHost_8761(v10344['a']), ())


def o_LAMBDA_12041(v12033):
    return o_Goto_10900(v11994(v12033), 'port', Th(lambda: (v11953 + 1)))


def o_LAMBDA_12097(v12082):
    if (v11937['ovr'] != ''):
        return o_Done_10970(v11994(v12082))
    return o_Goto_10900(v11994(v12082), 'path start', Th(lambda: v11953))


def o_HostState_12105(v11937, v11938):
    v11942 = Th(lambda: v11938['url'])
    v11953 = Th(lambda: o_HostEnd_11864(v11937['inp'], v11938['i'], (lambda: False), Th(lambda: o_AuthEnd_11729(v11942()))))
    v11959 = Th(lambda: o_Ch_2834(v11937['inp'], v11953()))
    v11970 = Th(lambda: subseq(v11937['inp'], v11938['i'], (v11953() - 1)))
    v11979 = Th(lambda: o_HostParse_10412(v11970(), Th(lambda: (not o_Special_10578(v11942()))), Th(lambda: v11937['env'])))
    def v11994(v11980):
        return exc(v11980, ('url', ), lambda at: exc(v11942(), ('host', ), lambda at: v11979()['h']))
    if ((v11937['ovr'] != '') and (v11942()['scheme'] == o_sFile_10510)):
        return o_Goto_10900(v11938, 'file host', Th(lambda: v11938['i']))
    if (v11959() == o_cCOLON_2688):
        if (len(v11970()) == 0):
            return o_Fail_10962(o_Err_10930(v11938, 'host-missing'), (lambda: 'URLParseError'))
        if (v11937['ovr'] == 'hostname'):
            return o_Done_10970(v11938)
        return o_WithHost_11936(v11938, v11979(), (lambda v12033: o_Goto_10900(v11994(v12033), 'port', Th(lambda: (v11953() + 1)))))
    if (o_Special_10578(v11942()) and (len(v11970()) == 0)):
        return o_Fail_10962(o_Err_10930(v11938, 'host-missing'), (lambda: 'URLParseError'))
    if (((v11937['ovr'] != '') and (len(v11970()) == 0)) and (o_HasCreds_10593(v11942()) or (v11942()['port'] != (-1)))):
        return o_Done_10970(v11938)
    return o_WithHost_11936(v11938, v11979(), (lambda v12082: (o_Done_10970(v11994(v12082)) if (v11937['ovr'] != '') else o_Goto_10900(v11994(v12082), 'path start', Th(lambda: v11953())))))


def o_LAMBDA_12122(v12118):
    return (not o_IsDigit_2715(v12118))


def o_LAMBDA_3192(v3171, v3172):
    if (v3171 >= v3170):
        return v3170
    v3183 = ((v3171 * v3169) + o_HexVal_2786(v3172))
    if (v3183 >= v3170):
        return v3170
    return v3183


def o_SatVal_3197(v3168, v3169, v3170):
    return reduce((lambda v3171, v3172: (v3170 if (v3171 >= v3170) else (lambda v3183: (v3170 if (v3183() >= v3170) else v3183()))(Th(lambda: ((v3171 * v3169) + o_HexVal_2786(v3172)))))), v3168, 0)


def o_Port_12243(v12106, v12107):
    v12125 = sel_first(v12106['inp'], v12107['i'], len(v12106['inp']), (lambda v12118: (not o_IsDigit_2715(v12118))))
    v12137 = ((len(v12106['inp']) + 1) if (v12125 == 0) else v12125)
    v12143 = o_Ch_2834(v12106['inp'], v12137)
    v12154 = Th(lambda: subseq(v12106['inp'], v12107['i'], (v12137 - 1)))
    v12159 = Th(lambda: o_SatVal_3197(v12154(), 10, 65536))
    v12187 = Th(lambda: (v12107['url'] if (len(v12154()) == 0) else exc(v12107['url'], ('port', ), lambda at: ((-1) if (v12159() == o_DefaultPort_10558(v12107['url']['scheme'])) else v12159()))))
    if (((v12143 == o_EOFC_2662) or (v12143 in o_AuthEnd_11729(v12107['url']))) or (v12106['ovr'] != '')):
        if ((len(v12154()) > 0) and (v12159() > 65535)):
            return o_Fail_10962(o_Err_10930(v12107, 'port-out-of-range'), (lambda: 'URLParseError'))
        if (v12106['ovr'] != ''):
            return o_Done_10970(exc(v12107, ('url', ), lambda at: v12187()))
        return o_GotoU_10919(v12107, 'path start', Th(lambda: v12137), Th(lambda: v12187()))
    return o_Fail_10962(o_Err_10930(v12107, 'port-invalid'), (lambda: 'URLParseError'))

o_cBAR_2704 = 124
K108 = frozenset((o_cCOLON_2688, o_cBAR_2704, ))

def o_StartsWithDrive_10760(v10718, v10719):
    return (((((v10719 + 1) <= len(v10718)) and o_IsAlpha_2740(ap(v10718, v10719))) and (ap(v10718, (v10719 + 1)) in K108)) and (((v10719 + 2) > len(v10718)) or (ap(v10718, (v10719 + 2)) in K20)))


def o_File_12429(v12244, v12245):
    v12253 = o_Ch_2834(v12244['inp'], v12245['i'])
    v12266 = Th(lambda: exc(exc(v12245['url'], ('scheme', ), lambda at: o_sFile_10510), ('host', ), lambda at: o_EmptyHost_8764))
    v12283 = Th(lambda: ((len(v12244['base']) == 1) and (ap(v12244['base'], 1)['scheme'] == o_sFile_10510)))
    v12289 = Th(lambda: ap(v12244['base'], 1))
    v12310 = Th(lambda: exc(exc(exc(v12266(), ('host', ), lambda at: v12289()['host']), ('path', ), lambda at: v12289()['path']), ('query', ), lambda at: v12289()['query']))
    if (v12253 in K19):
        return o_GotoU_10919((o_Err_10930(v12245, 'invalid-reverse-solidus') if (v12253 == o_cBS_2700) else v12245), 'file slash', Th(lambda: (v12245['i'] + 1)), Th(lambda: v12266()))
    if v12283():
        if (v12253 == o_cQ_2694):
            return o_GotoU_10919(v12245, 'query', Th(lambda: (v12245['i'] + 1)), Th(lambda: exc(v12310(), ('query', ), lambda at: o_NonEmptyQ_10973)))
        if (v12253 == o_cHASH_2672):
            return o_GotoU_10919(v12245, 'fragment', Th(lambda: (v12245['i'] + 1)), Th(lambda: exc(v12310(), ('frag', ), lambda at: o_NonEmptyQ_10973)))
        if (v12253 == o_EOFC_2662):
            return o_Done_10970(exc(v12245, ('url', ), lambda at: v12310()))
        if o_StartsWithDrive_10760(v12244['inp'], v12245['i']):
            return o_GotoU_10919(o_Err_10930(v12245, 'file-invalid-Windows-drive-letter'), 'path', Th(lambda: v12245['i']), Th(lambda: exc(exc(v12310(), ('query', ), lambda at: ()), ('path', ), lambda at: ())))
        return o_GotoU_10919(v12245, 'path', Th(lambda: v12245['i']), Th(lambda: o_Shorten_10867(exc(v12310(), ('query', ), lambda at: ()))))
    return o_GotoU_10919(v12245, 'path', Th(lambda: v12245['i']), Th(lambda: v12266()))


def o_FileSlash_12545(v12430, v12431):
    v12439 = o_Ch_2834(v12430['inp'], v12431['i'])
    v12456 = Th(lambda: ((len(v12430['base']) == 1) and (ap(v12430['base'], 1)['scheme'] == o_sFile_10510)))
    v12462 = Th(lambda: ap(v12430['base'], 1))
    v12473 = Th(lambda: exc(v12431['url'], ('host', ), lambda at: v12462()['host']))
    v12510 = Th(lambda: (exc(v12473(), ('path', ), lambda at: app(at, ap(v12462()['path'], 1))) if (((not o_StartsWithDrive_10760(v12430['inp'], v12431['i'])) and (len(v12462()['path']) > 0)) and o_IsNormDrive_10717(ap(v12462()['path'], 1))) else v12473()))
    if (v12439 in K19):
        return o_Goto_10900((o_Err_10930(v12431, 'invalid-reverse-solidus') if (v12439 == o_cBS_2700) else v12431), 'file host', Th(lambda: (v12431['i'] + 1)))
    return o_GotoU_10919(v12431, 'path', Th(lambda: v12431['i']), Th(lambda: (v12510() if v12456() else v12431['url'])))


def o_IsDrive_10700(v10682):
    return (((len(v10682) == 2) and o_IsAlpha_2740(ap(v10682, 1))) and (ap(v10682, 2) in K108))

K109 = o_S_2659('localhost')
K110 = o_StrHost_8761(K109)
o_LocalHost_10675 = K110

def o_LAMBDA_12647(v12643):
    return v12617(v12643, Th(lambda: v12593))


def o_FileHost_12653(v12546, v12547):
    v12560 = Th(lambda: o_ScanTo_2908(v12546['inp'], v12547['i'], Th(lambda: K20)))
    v12571 = Th(lambda: subseq(v12546['inp'], v12547['i'], (v12560() - 1)))
    v12582 = Th(lambda: o_HostParse_10412(v12571(), Th(lambda: (not o_Special_10578(v12547['url']))), Th(lambda: v12546['env'])))
    v12593 = Th(lambda: (o_EmptyHost_8764 if (v12582()['h'] == o_LocalHost_10675) else v12582()['h']))
    def v12617(v12594, v12595):
        v12603 = exc(v12594, ('url', 'host', ), lambda at: v12595())
        if (v12546['ovr'] != ''):
            return o_Done_10970(v12603)
        return o_Goto_10900(v12603, 'path start', Th(lambda: v12560()))
    if ((v12546['ovr'] == '') and o_IsDrive_10700(v12571())):
        return o_Goto_10900(o_Err_10930(v12547, 'file-invalid-Windows-drive-letter-host'), 'path', Th(lambda: v12547['i']))
    if (len(v12571()) == 0):
        return v12617(v12547, (lambda: o_EmptyHost_8764))
    return o_WithHost_11936(v12547, v12582(), (lambda v12643: v12617(v12643, Th(lambda: v12593()))))


def o_PathStart_12793(v12654, v12655):
    v12663 = Th(lambda: o_Ch_2834(v12654['inp'], v12655['i']))
    if o_Special_10578(v12655['url']):
        return o_Goto_10900((o_Err_10930(v12655, 'invalid-reverse-solidus') if (v12663() == o_cBS_2700) else v12655), 'path', Th(lambda: ((v12655['i'] + 1) if (v12663() in K19) else v12655['i'])))
    if ((v12654['ovr'] == '') and (v12663() == o_cQ_2694)):
        return o_GotoU_10919(v12655, 'query', Th(lambda: (v12655['i'] + 1)), Th(lambda: exc(v12655['url'], ('query', ), lambda at: o_NonEmptyQ_10973)))
    if ((v12654['ovr'] == '') and (v12663() == o_cHASH_2672)):
        return o_GotoU_10919(v12655, 'fragment', Th(lambda: (v12655['i'] + 1)), Th(lambda: exc(v12655['url'], ('frag', ), lambda at: o_NonEmptyQ_10973)))
    if (v12663() != o_EOFC_2662):
        return o_Goto_10900(v12655, 'path', Th(lambda: ((v12655['i'] + 1) if (v12663() == o_cSL_2684) else v12655['i'])))
    if ((v12654['ovr'] != '') and (v12655['url']['host']['k'] == 'none')):
        return o_Done_10970(exc(v12655, ('url', 'path', ), lambda at: app(at, ())))
    return o_Done_10970(v12655)


def o_LAMBDA_6966(v6934, v6935):
    v6941 = (v6932 + (v6935 - 1))
    if (ap(v6931, v6941) == o_cPCT_2674):
        if o_BadPercentAt_6930(v6931, v6941):
            return (v6934 + 1)
        return v6934
    if o_IsUrlCodePoint_6900(ap(v6931, v6941)):
        return v6934
    return (v6934 + 1)


def o_UnitErrs_6980(v6931, v6932, v6933):
    return reduce((lambda v6934, v6935: (lambda v6941: (((v6934 + 1) if o_BadPercentAt_6930(v6931(), v6941) else v6934) if (ap(v6931(), v6941) == o_cPCT_2674) else (v6934 if o_IsUrlCodePoint_6900(ap(v6931(), v6941)) else (v6934 + 1))))((v6932 + (v6935 - 1)))), fcn(range(1, ((v6933 - v6932) + 1) + 1), lambda v6976: v6976), 0)


def o_MaybeDots_10808(v10789):
    return ((len(v10789) in range(1, 6 + 1)) and ((ap(v10789, 1) == o_cDOT_2682) or (ap(v10789, 1) == o_cPCT_2674)))

K111 = o_S_2659('..')
K112 = o_S_2659('.%2e')
K113 = o_S_2659('.%2E')
K114 = o_S_2659('%2e.')
K115 = o_S_2659('%2E.')
K116 = o_S_2659('%2e%2e')
K117 = o_S_2659('%2e%2E')
K118 = o_S_2659('%2E%2e')
K119 = o_S_2659('%2E%2E')
K120 = frozenset((K111, K112, K113, K114, K115, K116, K117, K118, K119, ))
o_DoubleDots_10788 = K120

def o_IsDoubleDot_10824(v10817):
    return (o_MaybeDots_10808(v10817) and (v10817 in o_DoubleDots_10788))

K121 = o_S_2659('.')
K122 = o_S_2659('%2e')
K123 = o_S_2659('%2E')
K124 = frozenset((K121, K122, K123, ))
o_SingleDots_10768 = K124

def o_IsSingleDot_10816(v10809):
    return (o_MaybeDots_10808(v10809) and (v10809 in o_SingleDots_10768))

K125 = frozenset((o_cSL_2684, ))
K126 = frozenset((o_cQ_2694, o_cHASH_2672, ))

def o_Path_13000(v12794, v12795):
    v12799 = v12795['url']
    v12802 = o_Special_10578(v12799)
    v12821 = Th(lambda: (frozenset((K19 if v12802 else K125)) | frozenset((K126 if (v12794['ovr'] == '') else frozenset()))))
    v12830 = o_ScanTo_2908(v12794['inp'], v12795['i'], Th(lambda: v12821()))
    v12836 = o_Ch_2834(v12794['inp'], v12830)
    v12846 = Th(lambda: ((v12836 == o_cSL_2684) or (v12802 and (v12836 == o_cBS_2700))))
    v12857 = Th(lambda: subseq(v12794['inp'], v12795['i'], (v12830 - 1)))
    v12861 = Th(lambda: o_PctEnc_6747(v12857(), o_PathSet_6657))
    v12875 = o_ErrN_10949(v12795, 'invalid-URL-unit', o_UnitErrs_6980(Th(lambda: v12794['inp']), v12795['i'], (v12830 - 1)))
    v12886 = (o_Err_10930(v12875, 'invalid-reverse-solidus') if (v12802 and (v12836 == o_cBS_2700)) else v12875)
    v12948 = Th(lambda: ((lambda v12891: (v12891() if v12846() else exc(v12891(), ('path', ), lambda at: app(at, ()))))(Th(lambda: o_Shorten_10867(v12799))) if o_IsDoubleDot_10824(v12861()) else ((v12799 if v12846() else exc(v12799, ('path', ), lambda at: app(at, ()))) if o_IsSingleDot_10816(v12861()) else exc(v12799, ('path', ), lambda at: app(at, ((ap(v12861(), 1), o_cCOLON_2688, ) if (((v12799['scheme'] == o_sFile_10510) and (len(v12799['path']) == 0)) and o_IsDrive_10700(v12861())) else v12861()))))))
    if (v12836 == o_EOFC_2662):
        return o_Done_10970(exc(v12886, ('url', ), lambda at: v12948()))
    if (v12836 == o_cQ_2694):
        return o_GotoU_10919(v12886, 'query', Th(lambda: (v12830 + 1)), Th(lambda: exc(v12948(), ('query', ), lambda at: o_NonEmptyQ_10973)))
    if (v12836 == o_cHASH_2672):
        return o_GotoU_10919(v12886, 'fragment', Th(lambda: (v12830 + 1)), Th(lambda: exc(v12948(), ('frag', ), lambda at: o_NonEmptyQ_10973)))
    return o_GotoU_10919(v12886, 'path', Th(lambda: (v12830 + 1)), Th(lambda: v12948()))


def o_OpaquePath_13099(v13001, v13002):
    v13013 = o_ScanTo_2908(v13001['inp'], v13002['i'], Th(lambda: K126))
    v13019 = o_Ch_2834(v13001['inp'], v13013)
    v13044 = Th(lambda: exc(v13002['url'], ('path', ), lambda at: ((ap(at, 1) + o_PctEnc_6747(subseq(v13001['inp'], v13002['i'], (v13013 - 1)), o_C0Set_6637)), )))
    v13058 = o_ErrN_10949(v13002, 'invalid-URL-unit', o_UnitErrs_6980(Th(lambda: v13001['inp']), v13002['i'], (v13013 - 1)))
    if (v13019 == o_EOFC_2662):
        return o_Done_10970(exc(v13058, ('url', ), lambda at: v13044()))
    if (v13019 == o_cQ_2694):
        return o_GotoU_10919(v13058, 'query', Th(lambda: (v13013 + 1)), Th(lambda: exc(v13044(), ('query', ), lambda at: o_NonEmptyQ_10973)))
    return o_GotoU_10919(v13058, 'fragment', Th(lambda: (v13013 + 1)), Th(lambda: exc(v13044(), ('frag', ), lambda at: o_NonEmptyQ_10973)))


def o_IsUtf_6752(v6748):
    return (v6748 == 'utf-8')


def o_EncByte_6781(v6767, v6768):
    if ((v6767 < 127) and (v6767 not in v6768)):
        return (v6767, )
    return o_PctByte_6694(v6767)

K127 = (8364, 0, 8218, 402, 8222, 8230, 8224, 8225, 710, 8240, 352, 8249, 338, 0, 381, 0, 0, 8216, 8217, 8220, 8221, 8226, 8211, 8212, 732, 8482, 353, 8250, 339, 0, 382, 376, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255, )
o_ST_windows1252_4027 = K127
o_T_windows1252_4061 = (lambda v4029: (lambda v4040: fcn(frozenset([ap(v4029, v4042) for v4042 in v4040()]), lambda v4047: ((127 + choose(v4040(), lambda v4050: (ap(v4029, v4050) == v4047))), )))(Th(lambda: frozenset([v4033 for v4033 in range(1, 128 + 1) if (ap(v4029, v4033) != 0)]))))(o_ST_windows1252_4027)
K128 = (128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255, )
o_ST_iso88591_4191 = K128
o_T_iso88591_4225 = (lambda v4193: (lambda v4204: fcn(frozenset([ap(v4193, v4206) for v4206 in v4204()]), lambda v4211: ((127 + choose(v4204(), lambda v4214: (ap(v4193, v4214) == v4211))), )))(Th(lambda: frozenset([v4197 for v4197 in range(1, 128 + 1) if (ap(v4193, v4197) != 0)]))))(o_ST_iso88591_4191)
K129 = (1026, 1027, 8218, 1107, 8222, 8230, 8224, 8225, 8364, 8240, 1033, 8249, 1034, 1036, 1035, 1039, 1106, 8216, 8217, 8220, 8221, 8226, 8211, 8212, 0, 8482, 1113, 8250, 1114, 1116, 1115, 1119, 160, 1038, 1118, 1032, 164, 1168, 166, 167, 1025, 169, 1028, 171, 172, 173, 174, 1031, 176, 177, 1030, 1110, 1169, 181, 182, 183, 1105, 8470, 1108, 187, 1112, 1029, 1109, 1111, 1040, 1041, 1042, 1043, 1044, 1045, 1046, 1047, 1048, 1049, 1050, 1051, 1052, 1053, 1054, 1055, 1056, 1057, 1058, 1059, 1060, 1061, 1062, 1063, 1064, 1065, 1066, 1067, 1068, 1069, 1070, 1071, 1072, 1073, 1074, 1075, 1076, 1077, 1078, 1079, 1080, 1081, 1082, 1083, 1084, 1085, 1086, 1087, 1088, 1089, 1090, 1091, 1092, 1093, 1094, 1095, 1096, 1097, 1098, 1099, 1100, 1101, 1102, 1103, )
o_ST_windows1251_4355 = K129
o_T_windows1251_4389 = (lambda v4357: (lambda v4368: fcn(frozenset([ap(v4357, v4370) for v4370 in v4368()]), lambda v4375: ((127 + choose(v4368(), lambda v4378: (ap(v4357, v4378) == v4375))), )))(Th(lambda: frozenset([v4361 for v4361 in range(1, 128 + 1) if (ap(v4357, v4361) != 0)]))))(o_ST_windows1251_4355)
K130 = (8364, 0, 8218, 0, 8222, 8230, 8224, 8225, 0, 8240, 352, 8249, 346, 356, 381, 377, 0, 8216, 8217, 8220, 8221, 8226, 8211, 8212, 0, 8482, 353, 8250, 347, 357, 382, 378, 160, 711, 728, 321, 164, 260, 166, 167, 168, 169, 350, 171, 172, 173, 174, 379, 176, 177, 731, 322, 180, 181, 182, 183, 184, 261, 351, 187, 317, 733, 318, 380, 340, 193, 194, 258, 196, 313, 262, 199, 268, 201, 280, 203, 282, 205, 206, 270, 272, 323, 327, 211, 212, 336, 214, 215, 344, 366, 218, 368, 220, 221, 354, 223, 341, 225, 226, 259, 228, 314, 263, 231, 269, 233, 281, 235, 283, 237, 238, 271, 273, 324, 328, 243, 244, 337, 246, 247, 345, 367, 250, 369, 252, 253, 355, 729, )
o_ST_windows1250_4519 = K130
o_T_windows1250_4553 = (lambda v4521: (lambda v4532: fcn(frozenset([ap(v4521, v4534) for v4534 in v4532()]), lambda v4539: ((127 + choose(v4532(), lambda v4542: (ap(v4521, v4542) == v4539))), )))(Th(lambda: frozenset([v4525 for v4525 in range(1, 128 + 1) if (ap(v4521, v4525) != 0)]))))(o_ST_windows1250_4519)
K131 = (9472, 9474, 9484, 9488, 9492, 9496, 9500, 9508, 9516, 9524, 9532, 9600, 9604, 9608, 9612, 9616, 9617, 9618, 9619, 8992, 9632, 8729, 8730, 8776, 8804, 8805, 160, 8993, 176, 178, 183, 247, 9552, 9553, 9554, 1105, 9555, 9556, 9557, 9558, 9559, 9560, 9561, 9562, 9563, 9564, 9565, 9566, 9567, 9568, 9569, 1025, 9570, 9571, 9572, 9573, 9574, 9575, 9576, 9577, 9578, 9579, 9580, 169, 1102, 1072, 1073, 1094, 1076, 1077, 1092, 1075, 1093, 1080, 1081, 1082, 1083, 1084, 1085, 1086, 1087, 1103, 1088, 1089, 1090, 1091, 1078, 1074, 1100, 1099, 1079, 1096, 1101, 1097, 1095, 1098, 1070, 1040, 1041, 1062, 1044, 1045, 1060, 1043, 1061, 1048, 1049, 1050, 1051, 1052, 1053, 1054, 1055, 1071, 1056, 1057, 1058, 1059, 1046, 1042, 1068, 1067, 1047, 1064, 1069, 1065, 1063, 1066, )
o_ST_koi8r_4683 = K131
o_T_koi8r_4717 = (lambda v4685: (lambda v4696: fcn(frozenset([ap(v4685, v4698) for v4698 in v4696()]), lambda v4703: ((127 + choose(v4696(), lambda v4706: (ap(v4685, v4706) == v4703))), )))(Th(lambda: frozenset([v4689 for v4689 in range(1, 128 + 1) if (ap(v4685, v4689) != 0)]))))(o_ST_koi8r_4683)
K132 = (128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 260, 728, 321, 164, 317, 346, 167, 168, 352, 350, 356, 377, 173, 381, 379, 176, 261, 731, 322, 180, 318, 347, 711, 184, 353, 351, 357, 378, 733, 382, 380, 340, 193, 194, 258, 196, 313, 262, 199, 268, 201, 280, 203, 282, 205, 206, 270, 272, 323, 327, 211, 212, 336, 214, 215, 344, 366, 218, 368, 220, 221, 354, 223, 341, 225, 226, 259, 228, 314, 263, 231, 269, 233, 281, 235, 283, 237, 238, 271, 273, 324, 328, 243, 244, 337, 246, 247, 345, 367, 250, 369, 252, 253, 355, 729, )
o_ST_iso88592_4847 = K132
o_T_iso88592_4881 = (lambda v4849: (lambda v4860: fcn(frozenset([ap(v4849, v4862) for v4862 in v4860()]), lambda v4867: ((127 + choose(v4860(), lambda v4870: (ap(v4849, v4870) == v4867))), )))(Th(lambda: frozenset([v4853 for v4853 in range(1, 128 + 1) if (ap(v4849, v4853) != 0)]))))(o_ST_iso88592_4847)
K133 = (128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 1025, 1026, 1027, 1028, 1029, 1030, 1031, 1032, 1033, 1034, 1035, 1036, 173, 1038, 1039, 1040, 1041, 1042, 1043, 1044, 1045, 1046, 1047, 1048, 1049, 1050, 1051, 1052, 1053, 1054, 1055, 1056, 1057, 1058, 1059, 1060, 1061, 1062, 1063, 1064, 1065, 1066, 1067, 1068, 1069, 1070, 1071, 1072, 1073, 1074, 1075, 1076, 1077, 1078, 1079, 1080, 1081, 1082, 1083, 1084, 1085, 1086, 1087, 1088, 1089, 1090, 1091, 1092, 1093, 1094, 1095, 1096, 1097, 1098, 1099, 1100, 1101, 1102, 1103, 8470, 1105, 1106, 1107, 1108, 1109, 1110, 1111, 1112, 1113, 1114, 1115, 1116, 167, 1118, 1119, )
o_ST_iso88595_5011 = K133
o_T_iso88595_5045 = (lambda v5013: (lambda v5024: fcn(frozenset([ap(v5013, v5026) for v5026 in v5024()]), lambda v5031: ((127 + choose(v5024(), lambda v5034: (ap(v5013, v5034) == v5031))), )))(Th(lambda: frozenset([v5017 for v5017 in range(1, 128 + 1) if (ap(v5013, v5017) != 0)]))))(o_ST_iso88595_5011)
K134 = (128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 8364, 165, 352, 167, 353, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 381, 181, 182, 183, 382, 185, 186, 187, 338, 339, 376, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255, )
o_ST_iso885915_5175 = K134
o_T_iso885915_5209 = (lambda v5177: (lambda v5188: fcn(frozenset([ap(v5177, v5190) for v5190 in v5188()]), lambda v5195: ((127 + choose(v5188(), lambda v5198: (ap(v5177, v5198) == v5195))), )))(Th(lambda: frozenset([v5181 for v5181 in range(1, 128 + 1) if (ap(v5177, v5181) != 0)]))))(o_ST_iso885915_5175)
K135 = (1040, 1041, 1042, 1043, 1044, 1045, 1046, 1047, 1048, 1049, 1050, 1051, 1052, 1053, 1054, 1055, 1056, 1057, 1058, 1059, 1060, 1061, 1062, 1063, 1064, 1065, 1066, 1067, 1068, 1069, 1070, 1071, 1072, 1073, 1074, 1075, 1076, 1077, 1078, 1079, 1080, 1081, 1082, 1083, 1084, 1085, 1086, 1087, 9617, 9618, 9619, 9474, 9508, 9569, 9570, 9558, 9557, 9571, 9553, 9559, 9565, 9564, 9563, 9488, 9492, 9524, 9516, 9500, 9472, 9532, 9566, 9567, 9562, 9556, 9577, 9574, 9568, 9552, 9580, 9575, 9576, 9572, 9573, 9561, 9560, 9554, 9555, 9579, 9578, 9496, 9484, 9608, 9604, 9612, 9616, 9600, 1088, 1089, 1090, 1091, 1092, 1093, 1094, 1095, 1096, 1097, 1098, 1099, 1100, 1101, 1102, 1103, 1025, 1105, 1028, 1108, 1031, 1111, 1038, 1118, 176, 8729, 183, 8730, 8470, 164, 9632, 160, )
o_ST_ibm866_5339 = K135
o_T_ibm866_5373 = (lambda v5341: (lambda v5352: fcn(frozenset([ap(v5341, v5354) for v5354 in v5352()]), lambda v5359: ((127 + choose(v5352(), lambda v5362: (ap(v5341, v5362) == v5359))), )))(Th(lambda: frozenset([v5345 for v5345 in range(1, 128 + 1) if (ap(v5341, v5345) != 0)]))))(o_ST_ibm866_5339)
K136 = (8364, 0, 8218, 402, 8222, 8230, 8224, 8225, 0, 8240, 0, 8249, 0, 0, 0, 0, 0, 8216, 8217, 8220, 8221, 8226, 8211, 8212, 0, 8482, 0, 8250, 0, 0, 0, 0, 160, 901, 902, 163, 164, 165, 166, 167, 168, 169, 0, 171, 172, 173, 174, 8213, 176, 177, 178, 179, 900, 181, 182, 183, 904, 905, 906, 187, 908, 189, 910, 911, 912, 913, 914, 915, 916, 917, 918, 919, 920, 921, 922, 923, 924, 925, 926, 927, 928, 929, 0, 931, 932, 933, 934, 935, 936, 937, 938, 939, 940, 941, 942, 943, 944, 945, 946, 947, 948, 949, 950, 951, 952, 953, 954, 955, 956, 957, 958, 959, 960, 961, 962, 963, 964, 965, 966, 967, 968, 969, 970, 971, 972, 973, 974, 0, )
o_ST_windows1253_5503 = K136
o_T_windows1253_5537 = (lambda v5505: (lambda v5516: fcn(frozenset([ap(v5505, v5518) for v5518 in v5516()]), lambda v5523: ((127 + choose(v5516(), lambda v5526: (ap(v5505, v5526) == v5523))), )))(Th(lambda: frozenset([v5509 for v5509 in range(1, 128 + 1) if (ap(v5505, v5509) != 0)]))))(o_ST_windows1253_5503)
K137 = (0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, )
o_ST_usascii_5667 = K137
o_T_usascii_5701 = (lambda v5669: (lambda v5680: fcn(frozenset([ap(v5669, v5682) for v5682 in v5680()]), lambda v5687: ((127 + choose(v5680(), lambda v5690: (ap(v5669, v5690) == v5687))), )))(Th(lambda: frozenset([v5673 for v5673 in range(1, 128 + 1) if (ap(v5669, v5673) != 0)]))))(o_ST_usascii_5667)
K138 = (129, 152, )
K139 = (129, 139, )
K140 = (132, 64, )
K141 = (132, 145, )
K142 = (129, 130, )
K143 = (129, 64, )
K144 = (130, 160, )
K145 = (131, 65, )
K146 = (131, 92, )
K147 = (147, 250, )
K148 = (150, 123, )
K149 = (149, 92, )
K150 = (148, 92, )
K151 = (146, 134, )
K152 = (149, 182, )
K153 = (140, 247, )
K154 = (139, 150, )
K155 = (130, 96, )
K156 = (177, )
o_T_shiftjis_5844 = merge(merge(merge(merge(merge(merge(merge(merge(merge(merge(merge(merge(merge(merge(merge(merge(merge(merge({167: K138}, {176: K139}), {1040: K140}), {1103: K141}), {8800: K142}), {12288: K143}), {12354: K144}), {12450: K145}), {12477: K146}), {26085: K147}), {26412: K148}), {34920: K149}), {33021: K150}), {20013: K151}), {25991: K152}), {21151: K153}), {35377: K154}), {65313: K155}), {65393: K156})
K157 = (161, 248, )
K158 = (161, 235, )
K159 = (143, 171, 177, )
K160 = (143, 171, 243, )
K161 = (167, 161, )
K162 = (167, 241, )
K163 = (143, 162, 241, )
K164 = (161, 226, )
K165 = (161, 161, )
K166 = (164, 162, )
K167 = (165, 162, )
K168 = (165, 189, )
K169 = (198, 252, )
K170 = (203, 220, )
K171 = (201, 189, )
K172 = (199, 189, )
K173 = (195, 230, )
K174 = (202, 184, )
K175 = (184, 249, )
K176 = (181, 246, )
K177 = (163, 193, )
K178 = (142, 177, )
o_T_eucjp_5979 = merge(merge(merge(merge(merge(merge(merge(merge(merge(merge(merge(merge(merge(merge(merge(merge(merge(merge(merge(merge(merge({167: K157}, {176: K158}), {233: K159}), {255: K160}), {1040: K161}), {1103: K162}), {8470: K163}), {8800: K164}), {12288: K165}), {12354: K166}), {12450: K167}), {12477: K168}), {26085: K169}), {26412: K170}), {34920: K171}), {33021: K172}), {20013: K173}), {25991: K174}), {21151: K175}), {35377: K176}), {65313: K177}), {65393: K178})
K179 = (161, 215, )
K180 = (161, 198, )
K181 = (172, 161, )
K182 = (172, 241, )
K183 = (162, 230, )
K184 = (162, 224, )
K185 = (161, 193, )
K186 = (170, 162, )
K187 = (171, 162, )
K188 = (171, 189, )
K189 = (236, 237, )
K190 = (220, 226, )
K191 = (248, 250, )
K192 = (210, 246, )
K193 = (241, 233, )
K194 = (217, 254, )
K195 = (205, 237, )
K196 = (250, 201, )
K197 = (199, 209, )
K198 = (177, 219, )
o_T_euckr_6111 = merge(merge(merge(merge(merge(merge(merge(merge(merge(merge(merge(merge(merge(merge(merge(merge(merge(merge(merge(merge(merge({167: K179}, {176: K180}), {1040: K181}), {1103: K182}), {8364: K183}), {8470: K184}), {8800: K185}), {12288: K165}), {12354: K186}), {12450: K187}), {12477: K188}), {26085: K189}), {26412: K190}), {34920: K191}), {33021: K192}), {20013: K193}), {25991: K194}), {21151: K195}), {35377: K196}), {54620: K197}), {44544: K198}), {65313: K177})
K199 = (161, 177, )
K200 = (162, 88, )
K201 = (199, 232, )
K202 = (161, 218, )
K203 = (161, 64, )
K204 = (198, 166, )
K205 = (198, 249, )
K206 = (199, 85, )
K207 = (164, 233, )
K208 = (165, 187, )
K209 = (170, 237, )
K210 = (175, 224, )
K211 = (164, 164, )
K212 = (164, 229, )
K213 = (165, 92, )
K214 = (179, 92, )
K215 = (162, 207, )
o_T_big5_6213 = merge(merge(merge(merge(merge(merge(merge(merge(merge(merge(merge(merge(merge(merge(merge(merge({167: K199}, {176: K200}), {1103: K201}), {8800: K202}), {12288: K203}), {12354: K204}), {12450: K205}), {12477: K206}), {26085: K207}), {26412: K208}), {34920: K209}), {33021: K210}), {20013: K211}), {25991: K212}), {21151: K213}), {35377: K214}), {65313: K215})
K216 = (161, 236, )
K217 = (161, 227, )
K218 = (168, 166, )
K219 = (161, 237, )
K220 = (161, 217, )
K221 = (200, 213, )
K222 = (177, 190, )
K223 = (177, 237, )
K224 = (196, 220, )
K225 = (214, 208, )
K226 = (206, 196, )
K227 = (185, 166, )
K228 = (212, 83, )
o_T_gbk_6333 = merge(merge(merge(merge(merge(merge(merge(merge(merge(merge(merge(merge(merge(merge(merge(merge(merge(merge(merge({167: K216}, {176: K217}), {233: K218}), {1040: K161}), {1103: K162}), {8470: K219}), {8800: K220}), {12288: K165}), {12354: K166}), {12450: K167}), {12477: K168}), {26085: K221}), {26412: K222}), {34920: K223}), {33021: K224}), {20013: K225}), {25991: K226}), {21151: K227}), {35377: K228}), {65313: K177})
K229 = (129, 48, 139, 55, )
K230 = (162, 227, )
K231 = (131, 54, 132, 51, )
K232 = (130, 56, 132, 55, )
K233 = (132, 49, 151, 51, )
K234 = (132, 49, 164, 55, )
K235 = (148, 57, 176, 54, )
K236 = (149, 50, 130, 54, )
o_T_gb18030_6515 = merge(merge(merge(merge(merge(merge(merge(merge(merge(merge(merge(merge(merge(merge(merge(merge(merge(merge(merge(merge(merge(merge(merge(merge(merge(merge(merge({167: K216}, {176: K217}), {233: K218}), {255: K229}), {1040: K161}), {1103: K162}), {8364: K230}), {8470: K219}), {8800: K220}), {12288: K165}), {12354: K166}), {12450: K167}), {12477: K168}), {26085: K221}), {26412: K222}), {34920: K223}), {33021: K224}), {20013: K225}), {25991: K226}), {21151: K227}), {35377: K228}), {54620: K231}), {44544: K232}), {65313: K177}), {65393: K233}), {65533: K234}), {127752: K235}), {131072: K236})

def o_EncTable_6611(v6524):
    if (v6524 == 'windows-1252'):
        return o_T_windows1252_4061
    if (v6524 == 'iso-8859-1'):
        return o_T_iso88591_4225
    if (v6524 == 'windows-1251'):
        return o_T_windows1251_4389
    if (v6524 == 'windows-1250'):
        return o_T_windows1250_4553
    if (v6524 == 'koi8-r'):
        return o_T_koi8r_4717
    if (v6524 == 'iso-8859-2'):
        return o_T_iso88592_4881
    if (v6524 == 'iso-8859-5'):
        return o_T_iso88595_5045
    if (v6524 == 'iso-8859-15'):
        return o_T_iso885915_5209
    if (v6524 == 'ibm866'):
        return o_T_ibm866_5373
    if (v6524 == 'windows-1253'):
        return o_T_windows1253_5537
    if (v6524 == 'us-ascii'):
        return o_T_usascii_5701
    if (v6524 == 'shift_jis'):
        return o_T_shiftjis_5844
    if (v6524 == 'euc-jp'):
        return o_T_eucjp_5979
    if (v6524 == 'euc-kr'):
        return o_T_euckr_6111
    if (v6524 == 'big5'):
        return o_T_big5_6213
    if (v6524 == 'gbk'):
        return o_T_gbk_6333
    if (v6524 == 'gb18030'):
        return o_T_gb18030_6515
    return no_case()


def o_LAMBDA_6817(v6810, v6811):
    return (v6810 + o_EncByte_6781(v6811, v6783))

K237 = o_S_2659('%26%23')
o_sRefOpen_6755 = K237

def o_DecDigits_3104(v3105):
    if (v3105 < 10):
        return ((48 + v3105), )
    return app(o_DecDigits_3104((v3105 // 10)), (48 + (v3105 % 10)))

K238 = o_S_2659('%3B')
o_sRefClose_6758 = K238

def o_CharRef_6766(v6759):
    return ((o_sRefOpen_6755 + o_DecDigits_3104(v6759)) + o_sRefClose_6758)


def o_LAMBDA_6830(v6796, v6797):
    if (v6797 < 128):
        return (v6796 + o_EncByte_6781(v6797, v6783))
    if (v6797 in domain(v6795)):
        return reduce((lambda v6810, v6811: (v6810 + o_EncByte_6781(v6811, v6783))), ap(v6795, v6797), v6796)
    return (v6796 + o_CharRef_6766(v6797))


def o_PctEncWith_6837(v6782, v6783, v6784):
    if o_IsUtf_6752(v6784):
        return o_PctEnc_6747(v6782, v6783())
    v6792 = o_Norm_3294(v6782)
    v6795 = Th(lambda: o_EncTable_6611(v6784))
    return reduce((lambda v6796, v6797: ((v6796 + o_EncByte_6781(v6797, v6783())) if (v6797 < 128) else (reduce((lambda v6810, v6811: (v6810 + o_EncByte_6781(v6811, v6783()))), ap(v6795(), v6797), v6796) if (v6797 in domain(v6795())) else (v6796 + o_CharRef_6766(v6797))))), v6792, ())

K239 = o_SetOf_6630("'")
K240 = (frozenset(o_QuerySet_6647) | frozenset(K239))
o_SpQuerySet_6652 = K240
K241 = frozenset((o_cHASH_2672, ))
K242 = frozenset((o_sWs_10519, o_sWss_10522, ))

def o_Query_13226(v13100, v13101):
    v13123 = (o_ScanTo_2908(v13100['inp'], v13101['i'], Th(lambda: K241)) if (v13100['ovr'] == '') else (len(v13100['inp']) + 1))
    v13144 = Th(lambda: ('utf-8' if ((not o_Special_10578(v13101['url'])) or (v13101['url']['scheme'] in K242)) else v13100['enc']))
    v13152 = Th(lambda: (o_SpQuerySet_6652 if o_Special_10578(v13101['url']) else o_QuerySet_6647))
    v13178 = Th(lambda: exc(v13101['url'], ('query', ), lambda at: ((ap(at, 1) + o_PctEncWith_6837(subseq(v13100['inp'], v13101['i'], (v13123 - 1)), Th(lambda: v13152()), v13144())), )))
    v13197 = o_ErrN_10949(exc(v13101, ('url', ), lambda at: v13178()), 'invalid-URL-unit', o_UnitErrs_6980(Th(lambda: v13100['inp']), v13101['i'], (v13123 - 1)))
    if (o_Ch_2834(v13100['inp'], v13123) == o_cHASH_2672):
        return exc(exc(exc(v13197, ('st', ), lambda at: 'fragment'), ('i', ), lambda at: (v13123 + 1)), ('url', 'frag', ), lambda at: o_NonEmptyQ_10973)
    return o_Done_10970(v13197)

K243 = o_SetOf_6630(' "<>`')
K244 = (frozenset(o_C0Set_6637) | frozenset(K243))
o_FragmentSet_6642 = K244

def o_Fragment_13267(v13227, v13228):
    v13233 = len(v13227['inp'])
    return o_Done_10970(exc(o_ErrN_10949(v13228, 'invalid-URL-unit', o_UnitErrs_6980(Th(lambda: v13227['inp']), v13228['i'], v13233)), ('url', 'frag', ), lambda at: ((ap(at, 1) + o_PctEnc_6747(subseq(v13227['inp'], v13228['i'], v13233), o_FragmentSet_6642)), )))


def o_Step_13460(v13268, v13269):
    if (v13269['st'] == 'scheme start'):
        return o_SchemeStart_11026(v13268, v13269)
    if (v13269['st'] == 'scheme'):
        return o_Scheme_11239(v13268, v13269)
    if (v13269['st'] == 'no scheme'):
        return o_NoScheme_11342(v13268, v13269)
    if (v13269['st'] == 'special relative or authority'):
        return o_SpecialRelOrAuth_11367(v13268, v13269)
    if (v13269['st'] == 'path or authority'):
        return o_PathOrAuth_11394(v13268, v13269)
    if (v13269['st'] == 'relative'):
        return o_Relative_11553(v13268, v13269)
    if (v13269['st'] == 'relative slash'):
        return o_RelativeSlash_11643(v13268, v13269)
    if (v13269['st'] == 'special authority slashes'):
        return o_SpecialAuthSlashes_11668(v13268, v13269)
    if (v13269['st'] == 'special authority ignore slashes'):
        return o_SpecialAuthIgnore_11715(v13268, v13269)
    if (v13269['st'] == 'authority'):
        return o_Authority_11858(v13268, v13269)
    if (v13269['st'] == 'host'):
        return o_HostState_12105(v13268, v13269)
    if (v13269['st'] == 'hostname'):
        return o_HostState_12105(v13268, v13269)
    if (v13269['st'] == 'port'):
        return o_Port_12243(v13268, v13269)
    if (v13269['st'] == 'file'):
        return o_File_12429(v13268, v13269)
    if (v13269['st'] == 'file slash'):
        return o_FileSlash_12545(v13268, v13269)
    if (v13269['st'] == 'file host'):
        return o_FileHost_12653(v13268, v13269)
    if (v13269['st'] == 'path start'):
        return o_PathStart_12793(v13268, v13269)
    if (v13269['st'] == 'path'):
        return o_Path_13000(v13268, v13269)
    if (v13269['st'] == 'opaque path'):
        return o_OpaquePath_13099(v13268, v13269)
    if (v13269['st'] == 'query'):
        return o_Query_13226(v13268, v13269)
    if (v13269['st'] == 'fragment'):
        return o_Fragment_13267(v13268, v13269)
    return no_case()


def o_Run_13473(v13474, v13475):
    if o_Halted_13469(v13475):
        return v13475
    return o_Run_13473((lambda: v13474()), o_Step_13460(v13474(), v13475))

o_cTAB_2664 = 9
o_cLF_2666 = 10
o_cCR_2668 = 13
K245 = frozenset((o_cTAB_2664, o_cLF_2666, o_cCR_2668, ))
o_TabNl_13489 = K245

def o_LAMBDA_3098(v3094):
    return (v3094 not in v3092)


def o_Filter_3101(v3091, v3092):
    return tuple(filter((lambda v3094: (v3094 not in v3092)), v3091))


def o_StripNl_13507(v13490):
    if any((ap(v13490, v13495) in o_TabNl_13489) for v13495 in range(1, len(v13490) + 1)):
        return o_Filter_3101(v13490, o_TabNl_13489)
    return v13490


def o_LAMBDA_13514(v13510):
    return (v13510 > 32)


def o_LAMBDA_13523(v13519):
    return (v13519 > 32)


def o_Trim_13537(v13508):
    v13517 = (lambda s_: sel_first(s_, 1, len(s_), (lambda v13510: (v13510 > 32))))(v13508)
    v13526 = Th(lambda: (lambda s_: sel_last(s_, 1, len(s_), (lambda v13519: (v13519 > 32))))(v13508))
    if (v13517 == 0):
        return ()
    return subseq(v13508, v13517, v13526())


def o_Machine_10886(v10868, v10869):
    return {'st': v10868, 'i': 1, 'url': v10869, 'errs': (), 'fail': ''}

o_EmptyURL_10504 = {'scheme': (), 'user': (), 'pass': (), 'host': o_NullHost_8752, 'port': (-1), 'opq': False, 'path': (), 'query': (), 'frag': ()}

def o_TrimErrs_13560(v13538):
    if ((len(v13538) > 0) and ((ap(v13538, 1) <= 32) or (ap(v13538, len(v13538)) <= 32))):
        return K40
    return ()


def o_NlErrs_13577(v13561):
    if any((ap(v13561, v13566) in o_TabNl_13489) for v13566 in range(1, len(v13561) + 1)):
        return K40
    return ()

K246 = o_Machine_10886('scheme start', o_EmptyURL_10504)

def o_BasicParse_13620(v13578, v13579, v13580, v13581):
    v13584 = Th(lambda: o_Trim_13537(v13578()))
    v13602 = Th(lambda: {'inp': o_StripNl_13507(v13584()), 'base': v13579(), 'ovr': '', 'enc': v13580, 'env': v13581()})
    v13617 = o_Run_13473(Th(lambda: v13602()), exc(K246, ('errs', ), lambda at: (o_TrimErrs_13560(v13578()) + o_NlErrs_13577(v13584()))))
    return v13617


def o_ParseUrl_13707(v13657, v13658, v13659, v13660):
    if (len(v13658) == 0):
        return o_BasicParse_13620((lambda: v13657()), (lambda: ()), v13659(), (lambda: v13660()))
    v13677 = o_BasicParse_13620(Th(lambda: ap(v13658, 1)), (lambda: ()), v13659(), (lambda: v13660()))
    if (v13677['st'] == 'fail'):
        return v13677
    v13692 = o_BasicParse_13620((lambda: v13657()), Th(lambda: (v13677['url'], )), v13659(), (lambda: v13660()))
    return exc(v13692, ('errs', ), lambda at: (v13677['errs'] + at))


def o_Need_17788(v17777):
    return o_Skip_17776(ap(v17777['errs'], len(v17777['errs'])), False)


def o_Has_17590(v17573, v17574):
    return any((ap(v17573['cl'], v17581) == v17574) for v17581 in range(1, len(v17573['cl']) + 1))

K247 = o_S_2659('blob')
o_sBlob_10525 = K247
K248 = (o_cSL_2684, )

def o_LAMBDA_13725(v13717, v13718):
    return ((v13717 + K248) + v13718)


def o_PathSer_13733(v13708):
    if v13708['opq']:
        return ap(v13708['path'], 1)
    return reduce((lambda v13717, v13718: ((v13717 + K248) + v13718)), v13708['path'], ())


def o_OriginNeed_17858(v17825, v17826):
    if (v17825['scheme'] != o_sBlob_10525):
        return ()
    v17839 = o_BasicParse_13620(Th(lambda: o_PathSer_13733(v17825)), (lambda: ()), 'utf-8', (lambda: v17826()))
    if (v17839['fail'] == 'unknown'):
        return (ap(v17839['errs'], len(v17839['errs'])), )
    return ()


def o_T_17572(v17565, v17566):
    if v17565:
        return ()
    return (v17566, )


def o_When_17602(v17591, v17592, v17593):
    if o_Has_17590(v17591, v17592):
        return o_T_17572(v17593(), v17592)
    return ()

K249 = frozenset(('IPv6-unclosed', 'IPv6-invalid-compression', 'IPv6-too-many-pieces', 'IPv6-multiple-compression', 'IPv6-invalid-code-point', 'IPv6-too-few-pieces', 'IPv4-in-IPv6-too-many-pieces', 'IPv4-in-IPv6-invalid-code-point', 'IPv4-in-IPv6-out-of-range-part', 'IPv4-in-IPv6-too-few-parts', ))
o_IPv6Errors_10469 = K249

def o_Loose_17650(v17626):
    if (len(v17626) == 0):
        return ()
    return o_Force_2856(fcn(range(1, len(v17626) + 1), lambda v17636: ('IPv6' if (ap(v17626, v17636) in o_IPv6Errors_10469) else ap(v17626, v17636))))


def o_SameErrs_17658(v17651, v17652):
    return (o_Loose_17650(v17651) == o_Loose_17650(v17652))


def o_LogOf_13968(v13938, v13939):
    return {'l': (() if (len(v13938) == 0) else o_Force_2856(fcn(range(1, len(v13938) + 1), lambda v13950: ('E' if (v13939 and (v13950 == len(v13938))) else 'I')))), 't': v13938}

K250 = ('E', )

def o_SameLog_17744(v17659, v17660, v17661):
    v17665 = o_LogOf_13968(v17661, v17660())
    def v17685(v17666, v17667):
        return ((v17666['l'] == v17667['l']) and (o_Loose_17650(v17666['t']) == o_Loose_17650(v17667['t'])))
    return (((v17685(v17659['log'], v17665) and v17685(v17659['logon'], v17665)) and v17659['logsame']) and (v17659['logoff'] == {'l': (), 't': ()}) and v17685(v17659['logerr'], ({'l': K250, 't': (ap(v17661, len(v17661)), )} if (v17660() and (len(v17661) > 0)) else {'l': (), 't': ()})))


def o_SchemeRegistered_15620(v15614, v15615):
    return (o_Lower_2882(v15614) in v15615)


def o_ParseValErrs_16745(v16718, v16719):
    if (v16718['st'] == 'fail'):
        return v16718['errs']
    if o_SchemeRegistered_15620(v16718['url']['scheme'], v16719):
        return v16718['errs']
    return app(v16718['errs'], 'undefined')

o_Registry_17564 = frozenset()

def o_ValErrs_17824(v17820):
    return o_ParseValErrs_16745(v17820, o_Registry_17564)


def o_IPv4Ser_9410(v9373):
    return ((((((o_DecDigits_3104((ap(v9373, 1) // 256)) + K94) + o_DecDigits_3104((ap(v9373, 1) % 256))) + K94) + o_DecDigits_3104((ap(v9373, 2) // 256))) + K94) + o_DecDigits_3104((ap(v9373, 2) % 256)))


def o_ZeroRun_10101(v10057, v10058):
    if (ap(v10057, v10058) != 0):
        return 0
    return choose(range(1, (9 - v10058) + 1), lambda v10070: (all((ap(v10057, v10078) == 0) for v10078 in range(v10058, (v10058 + (v10070 - 1)) + 1)) and (((v10058 + v10070) == 9) or (ap(v10057, (v10058 + v10070)) != 0))))


def o_CompressAt_10172(v10102):
    v10111 = Th(lambda: fcn(range(1, 8 + 1), lambda v10106: o_ZeroRun_10101(v10102, v10106)))
    v10138 = choose(range(0, 8 + 1), lambda v10115: (any((ap(v10111(), v10119) == v10115) for v10119 in range(1, 8 + 1)) and all((ap(v10111(), v10129) <= v10115) for v10129 in range(1, 8 + 1))))
    if (v10138 < 2):
        return K79
    return (choose(range(1, 8 + 1), lambda v10148: ((ap(v10111(), v10148) == v10138) and all((ap(v10111(), v10159) < v10138) for v10159 in range(1, (v10148 - 1) + 1)))), v10138, )


def o_HexLower_3135(v3124):
    if (v3124 < 10):
        return (48 + v3124)
    return (87 + v3124)


def o_HexDigits_3150(v3151):
    if (v3151 < 16):
        return (o_HexLower_3135(v3151), )
    return app(o_HexDigits_3150((v3151 // 16)), o_HexLower_3135((v3151 % 16)))

K251 = (o_cCOLON_2688, )

def o_Pieces_10201(v10173, v10174, v10175):
    if (v10175 < v10174):
        return ()
    return o_Join_3057(fcn(range(1, ((v10175 - v10174) + 1) + 1), lambda v10187: o_HexDigits_3150(ap(v10173, (v10174 + (v10187 - 1))))), K251)

K252 = (o_cCOLON_2688, o_cCOLON_2688, )

def o_IPv6Ser_10240(v10202):
    v10205 = o_CompressAt_10172(v10202())
    if (ap(v10205, 1) == 0):
        return o_Pieces_10201(v10202(), 1, 8)
    return ((o_Pieces_10201(v10202(), 1, (ap(v10205, 1) - 1)) + K252) + o_Pieces_10201(v10202(), (ap(v10205, 1) + ap(v10205, 2)), 8))

K253 = (o_cLB_2698, )
K254 = (o_cRB_2702, )

def o_HostSer_10457(v10413):
    if (v10413['k'] == 'none'):
        return ()
    if (v10413['k'] == 'str'):
        return v10413['v']
    if (v10413['k'] == 'v4'):
        return o_IPv4Ser_9410(v10413['v'])
    if (v10413['k'] == 'v6'):
        return ((K253 + o_IPv6Ser_10240(Th(lambda: v10413['v']))) + K254)
    return no_case()

K255 = (o_cAT_2696, )

def o_AuthSer_13781(v13734):
    return (((((v13734['user'] + ((K251 + v13734['pass']) if (len(v13734['pass']) > 0) else ())) + K255) if o_HasCreds_10593(v13734) else ()) + o_HostSer_10457(v13734['host'])) + (() if (v13734['port'] == (-1)) else (K251 + o_DecDigits_3104(v13734['port']))))

K256 = (o_cSL_2684, o_cSL_2684, )
K257 = (o_cSL_2684, o_cDOT_2682, )
K258 = (o_cQ_2694, )
K259 = (o_cHASH_2672, )

def o_UrlSer_13870(v13782, v13783):
    return (((((v13782['scheme'] + K251) + ((K256 + o_AuthSer_13781(v13782)) if (v13782['host']['k'] != 'none') else (K257 if (((not v13782['opq']) and (len(v13782['path']) > 1)) and (len(ap(v13782['path'], 1)) == 0)) else ()))) + o_PathSer_13733(v13782)) + ((K258 + ap(v13782['query'], 1)) if (len(v13782['query']) == 1) else ())) + ((K259 + ap(v13782['frag'], 1)) if ((not v13783) and (len(v13782['frag']) == 1)) else ()))


def o_Href_13875(v13871):
    return o_UrlSer_13870(v13871, False)

K260 = o_S_2659('null')
o_sNull_10678 = K260
K261 = o_S_2659('://')
o_sColonSlash2_10681 = K261

def o_OriginSer_14086(v14045):
    if (len(v14045) == 0):
        return o_sNull_10678
    return (((ap(v14045, 1)['scheme'] + o_sColonSlash2_10681) + o_HostSer_10457(ap(v14045, 1)['host'])) + (() if (ap(v14045, 1)['port'] == (-1)) else (K251 + o_DecDigits_3104(ap(v14045, 1)['port']))))


def o_TupleOrigin_13987(v13969):
    return ({'scheme': v13969['scheme'], 'host': v13969['host'], 'port': v13969['port']}, )

K262 = frozenset((o_sHttp_10513, o_sHttps_10516, o_sFile_10510, ))
K263 = frozenset((o_sFtp_10507, o_sHttp_10513, o_sHttps_10516, o_sWs_10519, o_sWss_10522, ))

def o_Origin_13991(v13992, v13993):
    if (v13992['scheme'] == o_sBlob_10525):
        v14005 = o_BasicParse_13620(Th(lambda: o_PathSer_13733(v13992)), (lambda: ()), 'utf-8', (lambda: v13993()))
        if ((v14005['st'] == 'done') and (v14005['url']['scheme'] in K262)):
            return o_Origin_13991(v14005['url'], (lambda: v13993()))
        return ()
    if (v13992['scheme'] in K263):
        return o_TupleOrigin_13987(v13992)
    return ()


def o_HostGet_14463(v14433):
    if (v14433['host']['k'] == 'none'):
        return ()
    return (o_HostSer_10457(v14433['host']) + (() if (v14433['port'] == (-1)) else (K251 + o_DecDigits_3104(v14433['port']))))


def o_Getters_14570(v14464, v14465):
    return {'href': o_Href_13875(v14464), 'origin': o_OriginSer_14086(o_Origin_13991(v14464, (lambda: v14465()))), 'protocol': app(v14464['scheme'], o_cCOLON_2688), 'username': v14464['user'], 'password': v14464['pass'], 'host': o_HostGet_14463(v14464), 'hostname': o_HostSer_10457(v14464['host']), 'port': (() if (v14464['port'] == (-1)) else o_DecDigits_3104(v14464['port'])), 'pathname': o_PathSer_13733(v14464), 'search': (() if ((len(v14464['query']) == 0) or (v14464['query'] == o_NonEmptyQ_10973)) else (K258 + ap(v14464['query'], 1))), 'hash': (() if ((len(v14464['frag']) == 0) or (v14464['frag'] == o_NonEmptyQ_10973)) else (K259 + ap(v14464['frag'], 1)))}

o_cAMP_2676 = 38

def o_LAMBDA_7093(v7088):
    return (len(v7088) > 0)

o_cPLUS_2678 = 43
o_cSP_2670 = 32

def o_PlusToSpace_7077(v7054):
    if o_HasC_2936(v7054, o_cPLUS_2678):
        return o_Force_2856(fcn(range(1, len(v7054) + 1), lambda v7062: (o_cSP_2670 if (ap(v7054, v7062) == o_cPLUS_2678) else ap(v7054, v7062))))
    return v7054


def o_FormDecStr_7083(v7078):
    return o_Utf8Decode_3720(o_PercentDecode_3804(o_PlusToSpace_7077(v7078)))

o_cEQ_2692 = 61
K264 = frozenset((o_cEQ_2692, ))

def o_FormDecode_7140(v7084):
    v7096 = tuple(filter((lambda v7088: (len(v7088) > 0)), o_Split_3016(v7084, o_cAMP_2676)))
    def v7121(v7097):
        v7103 = o_ScanTo_2908(v7097, 1, Th(lambda: K264))
        return (o_FormDecStr_7083(subseq(v7097, 1, (v7103 - 1))), o_FormDecStr_7083(subseq(v7097, (v7103 + 1), len(v7097))), )
    if (len(v7096) == 0):
        return ()
    return o_Force_2856(fcn(range(1, len(v7096) + 1), lambda v7131: v7121(ap(v7096, v7131))))


def o_ListOfQuery_14104(v14092):
    if (len(v14092) == 0):
        return ()
    return o_FormDecode_7140(o_Utf8Encode_3405(ap(v14092, 1)))


def o_CannotHaveCreds_10629(v10620):
    return (o_HostEmptyOrNull_10619(v10620) or (v10620['scheme'] == o_sFile_10510))


def o_RecQ_13937(v13876):
    return {'opq': v13876['opq'], 'special': o_Special_10578(v13876), 'notspecial': (not o_Special_10578(v13876)), 'creds': o_HasCreds_10593(v13876), 'nocreds': o_CannotHaveCreds_10629(v13876), 'host': (() if (v13876['host']['k'] == 'none') else o_HostSer_10457(v13876['host'])), 'path': o_PathSer_13733(v13876), 'url': o_Href_13875(v13876), 'nf': o_UrlSer_13870(v13876, True), 'short': (v13876 if v13876['opq'] else o_Shorten_10867(v13876))}


def o_OptOrigin_17819(v17789, v17790):
    v17794 = o_Origin_13991(v17789, (lambda: v17790()))
    if (len(v17794) == 0):
        return ()
    return ((ap(v17794, 1)['scheme'], ap(v17794, 1)['host'], ap(v17794, 1)['port'], ), )

o_cSEMI_2690 = 59
K265 = frozenset((o_cSEMI_2690, ))

def o_UrlParseResult_15613(v15469, v15470):
    v15496 = ((() if (v15469['port'] == (-1)) else (K251 + o_DecDigits_3104(v15469['port']))) if (v15469['host']['k'] == 'none') else o_AuthSer_13781(v15469))
    v15499 = o_PathSer_13733(v15469)
    v15505 = o_ScanTo_2908(v15499, 1, Th(lambda: K265))
    v15512 = subseq(v15499, 1, (v15505 - 1))
    v15520 = subseq(v15499, (v15505 + 1), len(v15499))
    v15534 = (() if (len(v15469['query']) == 0) else ap(v15469['query'], 1))
    v15548 = Th(lambda: (() if (len(v15469['frag']) == 0) else ap(v15469['frag'], 1)))
    v15559 = Th(lambda: (() if (len(v15548()) == 0) else (K259 + v15548())))
    v15576 = ('frag' if v15470 else ('query' if (len(v15534) > 0) else ('params' if (len(v15520) > 0) else 'path')))
    return (v15469['scheme'], v15496, ((v15512 + v15559()) if (v15576 == 'path') else v15512), ((v15520 + v15559()) if (v15576 == 'params') else v15520), ((v15534 + v15559()) if (v15576 == 'query') else v15534), (v15548() if (v15576 == 'frag') else ()), )

K266 = ('ok', )

def o_CheckParse_18199(v17859):
    v17873 = o_ParseUrl_13707(Th(lambda: v17859['s']), v17859['base'], Th(lambda: v17859['enc']), Th(lambda: v17859['env']))
    v17877 = Th(lambda: v17859['obs'])
    v17883 = Th(lambda: (v17873['st'] == 'done'))
    v17887 = Th(lambda: v17873['url'])
    v17912 = Th(lambda: {'ok': v17883(), 'fail': v17873['fail'], 'url': v17887(), 'errs': v17873['errs'], 'href': (o_Href_13875(v17887()) if v17883() else ())})
    v18158 = Th(lambda: (K266 if (v17883() != v17877()['ok']) else (((((o_When_17602(v17859, 'cls', Th(lambda: (v17877()['cls'] == v17873['fail']))) + o_When_17602(v17859, 'errs', Th(lambda: o_SameErrs_17658(v17873['errs'], v17877()['errs'])))) + o_When_17602(v17859, 'log', Th(lambda: o_SameLog_17744(v17877()['log'], (lambda: True), v17873['errs'])))) + o_When_17602(v17859, 'valid', Th(lambda: ((not v17877()['valid']) and o_SameErrs_17658(o_ValErrs_17824(v17873), v17877()['verrs']))))) + o_When_17602(v17859, 'can', Th(lambda: (not v17877()['can'])))) if (not v17883()) else (((((((((((((o_When_17602(v17859, 'rec', Th(lambda: (v17877()['rec'] == v17887()))) + o_When_17602(v17859, 'href', Th(lambda: (v17877()['href'] == o_Href_13875(v17887()))))) + o_When_17602(v17859, 'hrefnf', Th(lambda: (v17877()['hrefnf'] == o_UrlSer_13870(v17887(), True))))) + o_When_17602(v17859, 'g', Th(lambda: (v17877()['g'] == o_Getters_14570(v17887(), Th(lambda: v17859['env'])))))) + o_When_17602(v17859, 'list', Th(lambda: (v17877()['list'] == o_ListOfQuery_14104(v17887()['query']))))) + o_When_17602(v17859, 'errs', Th(lambda: o_SameErrs_17658(v17873['errs'], v17877()['errs'])))) + o_When_17602(v17859, 'log', Th(lambda: o_SameLog_17744(v17877()['log'], (lambda: False), v17873['errs'])))) + o_When_17602(v17859, 'valid', Th(lambda: ((v17877()['valid'] == (len(o_ValErrs_17824(v17873)) == 0)) and o_SameErrs_17658(o_ValErrs_17824(v17873), v17877()['verrs']))))) + o_When_17602(v17859, 'can', Th(lambda: v17877()['can']))) + o_When_17602(v17859, 'q', Th(lambda: (v17877()['q'] == o_RecQ_13937(v17887()))))) + o_When_17602(v17859, 'origin', Th(lambda: (v17877()['origin'] == o_OptOrigin_17819(v17887(), Th(lambda: v17859['env'])))))) + o_When_17602(v17859, 'up', Th(lambda: (v17877()['up'] == o_UrlParseResult_15613(v17887(), True))))) + o_When_17602(v17859, 'upnf', Th(lambda: (v17877()['upnf'] == o_UrlParseResult_15613(v17887(), False))))) + o_When_17602(v17859, 'rt', Th(lambda: ((v17877()['rt']['ok'] and (v17877()['rt']['rec'] == v17877()['rec'])) and (v17877()['rt']['href'] == v17877()['href']))))))))
    if (v17873['fail'] == 'unknown'):
        return o_Need_17788(v17873)
    if ((v17883() and (o_Has_17590(v17859, 'g') or o_Has_17590(v17859, 'origin'))) and (len(o_OriginNeed_17858(v17887(), Th(lambda: v17859['env']))) == 1)):
        return o_Skip_17776(ap(o_OriginNeed_17858(v17887(), Th(lambda: v17859['env'])), 1), False)
    return o_V_17757(v18158(), v17912())


def o_OverrideParse_13656(v13621, v13622, v13623, v13624, v13625):
    v13643 = Th(lambda: {'inp': o_StripNl_13507(v13621()), 'base': (), 'ovr': v13623, 'enc': v13624(), 'env': v13625()})
    return o_Run_13473(Th(lambda: v13643()), exc(o_Machine_10886(v13623, v13622), ('errs', ), lambda at: o_NlErrs_13577(v13621())))


def o_CheckOvr_18328(v18200):
    v18217 = o_OverrideParse_13656(Th(lambda: v18200['s']), v18200['rec'], v18200['st'], Th(lambda: v18200['enc']), Th(lambda: v18200['env']))
    v18221 = Th(lambda: v18200['obs'])
    v18227 = Th(lambda: (v18217['st'] == 'done'))
    v18242 = Th(lambda: {'ok': v18227(), 'fail': v18217['fail'], 'url': v18217['url']})
    v18315 = Th(lambda: (((((o_T_17572((v18227() == v18221()['ok']), 'ok') + o_T_17572((v18221()['rec'] == v18217['url']), 'rec')) + o_When_17602(v18200, 'cls', Th(lambda: (v18227() or (v18221()['cls'] == v18217['fail']))))) + o_When_17602(v18200, 'q', Th(lambda: (v18221()['q'] == o_RecQ_13937(v18217['url']))))) + o_When_17602(v18200, 'errs', Th(lambda: o_SameErrs_17658(v18217['errs'], v18221()['errs'])))) + o_When_17602(v18200, 'log', Th(lambda: o_SameLog_17744(v18221()['log'], Th(lambda: ((not v18227()) and (v18200['st'] != 'scheme start'))), v18217['errs'])))))
    if (v18217['fail'] == 'unknown'):
        return o_Need_17788(v18217)
    return o_V_17757(v18315(), v18242())


def o_CheckHost_18472(v18329):
    v18340 = o_HostParse_10412(v18329['s'], Th(lambda: v18329['ns']), Th(lambda: v18329['env']))
    v18344 = Th(lambda: v18329['obs'])
    v18455 = Th(lambda: (K266 if (v18340['ok'] != v18344()['ok']) else (((o_When_17602(v18329, 'cls', Th(lambda: (v18344()['cls'] == v18340['fail']))) + o_When_17602(v18329, 'errs', Th(lambda: o_SameErrs_17658(v18340['errs'], v18344()['errs'])))) + o_When_17602(v18329, 'log', Th(lambda: o_SameLog_17744(v18344()['log'], (lambda: True), v18340['errs'])))) if (not v18340['ok']) else ((((o_When_17602(v18329, 'log', Th(lambda: o_SameLog_17744(v18344()['log'], (lambda: False), v18340['errs']))) + o_T_17572((v18344()['h'] == v18340['h']), 'h')) + o_T_17572((v18344()['ser'] == o_HostSer_10457(v18340['h'])), 'ser')) + o_When_17602(v18329, 'errs', Th(lambda: o_SameErrs_17658(v18340['errs'], v18344()['errs'])))) + o_When_17602(v18329, 'idem', Th(lambda: (v18344()['again']['ok'] and (v18344()['again']['h'] == v18340['h']))))))))
    if (not v18340['known']):
        return o_Need_17788(v18340)
    return o_V_17757(v18455(), exc(v18340, ('known', ), lambda at: True))


def o_LAMBDA_15710(v15701):
    return ((v15647(v15701) or v15660(v15701)) or v15694(v15701))

K267 = ('IPv4-too-many-parts', )
K268 = ('undefined', )
K269 = ('IPv4-non-numeric-part', )
K270 = ('IPv4-non-decimal-part', )
K271 = ('IPv4-out-of-range-part', )

def o_IPv4StrictErr_15753(v15621):
    v15625 = o_Split_3016(v15621, o_cDOT_2682)
    v15628 = len(v15625)
    v15639 = Th(lambda: o_Force_2856(fcn(range(1, v15628 + 1), lambda v15632: o_IPv4Number_8978(ap(v15625, v15632)))))
    def v15647(v15640):
        return (not ap(v15639(), v15640)['ok'])
    def v15660(v15648):
        return (ap(v15639(), v15648)['ok'] and ap(v15639(), v15648)['err'])
    def v15694(v15661):
        return ((ap(v15639(), v15661)['ok'] and (not ap(v15639(), v15661)['err'])) and ((ap(ap(v15639(), v15661)['n'], 1) > 0) or (ap(ap(v15639(), v15661)['n'], 2) > 255)))
    v15713 = Th(lambda: (lambda s_: sel_first(s_, 1, len(s_), (lambda v15701: ((v15647(v15701) or v15660(v15701)) or v15694(v15701)))))(fcn(range(1, v15628 + 1), lambda v15698: v15698)))
    if (len(ap(v15625, v15628)) == 0):
        return K99
    if (v15628 > 4):
        return K267
    if (v15628 < 4):
        return K268
    if (v15713() == 0):
        return ()
    if v15647(v15713()):
        return K269
    if v15660(v15713()):
        return K270
    return K271


def o_DomainToUnicode_8739(v8683, v8684, v8685):
    v8688 = Th(lambda: o_Norm_3294(v8683()))
    v8693 = o_EnvLookup_8557(v8685, Th(lambda: v8688()), (lambda: v8684()))
    if (len(v8693) > 0):
        return {'known': True, 'bad': ap(v8693, 1)['ubad'], 'u': ap(v8693, 1)['u']}
    v8719 = o_Process_8492(v8688(), v8684())
    return {'known': v8719['known'], 'bad': v8719['bad'], 'u': v8719['u']}

K272 = frozenset(('fail', 'refuse', ))
K273 = ('domain-to-Unicode', )

def o_DomainErr_15806(v15754, v15755):
    v15760 = o_DomainToASCII_8682(v15754, (lambda: True), (lambda: v15755))
    v15765 = Th(lambda: o_DomainToUnicode_8739((lambda: v15754), (lambda: True), v15755))
    return {'known': ((v15760['st'] != 'unknown') and ((v15760['st'] in K272) or v15765()['known'])), 'errs': (K103 if (v15760['st'] in K272) else (K273 if v15765()['bad'] else ()))}


def o_HostErr_15949(v15896, v15897):
    if ((o_Ch_2834(v15896, 1) == o_cLB_2698) and (ap(v15896, len(v15896)) == o_cRB_2702)):
        v15918 = o_IPv6Parse_10056(subseq(v15896, 2, (len(v15896) - 1)))
        return {'known': True, 'errs': (() if v15918['ok'] else v15918['errs'])}
    if o_EndsInNumber_9037(v15896):
        return {'known': True, 'errs': o_IPv4StrictErr_15753(v15896)}
    return o_DomainErr_15806(v15896, v15897)


def o_LAMBDA_15857(v15845):
    return ((v15845 in o_ForbiddenHost_8773) or (not ((v15845 == o_cPCT_2674) or o_IsUrlCodePoint_6900(v15845))))


def o_OpaqueErr_15895(v15807):
    if (len(v15807) == 0):
        return K268
    if ((ap(v15807, 1) == o_cLB_2698) and (ap(v15807, len(v15807)) == o_cRB_2702)):
        v15834 = o_IPv6Parse_10056(subseq(v15807, 2, (len(v15807) - 1)))
        if v15834['ok']:
            return ()
        return v15834['errs']
    v15860 = (lambda s_: sel_first(s_, 1, len(s_), (lambda v15845: ((v15845 in o_ForbiddenHost_8773) or (not ((v15845 == o_cPCT_2674) or o_IsUrlCodePoint_6900(v15845)))))))(v15807)
    if ((v15860 != 0) and (ap(v15807, v15860) in o_ForbiddenHost_8773)):
        return K38
    if (v15860 != 0):
        return K40
    if any(o_BadPercentAt_6930(v15807, v15881) for v15881 in range(1, len(v15807) + 1)):
        return K40
    return ()


def o_HvalErr_16717(v16643, v16644, v16645, v16646):
    if (v16643 == 'host'):
        return o_HostErr_15949(v16644, v16646())
    if (v16643 == 'domain'):
        return o_DomainErr_15806(v16644, v16646())
    if (v16643 == 'v4'):
        return {'known': True, 'errs': o_IPv4StrictErr_15753(v16644)}
    if (v16643 == 'v6'):
        return {'known': True, 'errs': o_IPv6Parse_10056(v16644)['errs']}
    if (v16643 == 'opaque'):
        return {'known': True, 'errs': o_OpaqueErr_15895(v16644)}
    if (v16643 == 'scheme'):
        return {'known': True, 'errs': (() if o_SchemeRegistered_15620(v16644, v16645) else K268)}
    return no_case()


def o_CheckHval_18541(v18473):
    v18485 = o_HvalErr_16717(v18473['fn'], v18473['s'], o_Registry_17564, Th(lambda: v18473['env']))
    if (not v18485['known']):
        return o_Skip_17776(o_Norm_3294(v18473['s']), True)
    return o_V_17757(((o_T_17572((v18473['obs']['valid'] == (len(v18485['errs']) == 0)), 'valid') + o_T_17572((v18473['obs']['plain'] == v18473['obs']['valid']), 'plain')) + o_When_17602(v18473, 'errs', Th(lambda: o_SameErrs_17658(v18485['errs'], v18473['obs']['errs'])))), v18485)


def o_CheckV6Ser_18588(v18542):
    return o_V_17757((o_T_17572((v18542['obs']['s'] == o_IPv6Ser_10240(Th(lambda: v18542['v']))), 'ser') + o_T_17572((v18542['obs']['back']['ok'] and (v18542['obs']['back']['h'] == {'k': 'v6', 'v': v18542['v']})), 'back')), o_IPv6Ser_10240(Th(lambda: v18542['v'])))


def o_CheckV4Ser_18635(v18589):
    return o_V_17757((o_T_17572((v18589['obs']['s'] == o_IPv4Ser_9410(v18589['v'])), 'ser') + o_T_17572((v18589['obs']['back']['ok'] and (v18589['obs']['back']['h'] == {'k': 'v4', 'v': v18589['v']})), 'back')), o_IPv4Ser_9410(v18589['v']))


def o_CheckIdna_18792(v18636):
    v18647 = o_DomainToASCII_8682(v18636['d'], Th(lambda: v18636['strict']), Th(lambda: v18636['env']))
    v18658 = Th(lambda: o_DomainToUnicode_8739(Th(lambda: v18636['d']), Th(lambda: v18636['strict']), v18636['env']))
    v18667 = Th(lambda: o_DomainToASCII_8682(v18636['d'], Th(lambda: v18636['strict']), (lambda: ())))
    v18682 = Th(lambda: (len(o_EnvLookup_8557(v18636['env'], Th(lambda: o_Norm_3294(v18636['d'])), Th(lambda: v18636['strict']))) > 0))
    v18686 = Th(lambda: v18636['obs'])
    if (((v18647['st'] == 'unknown') or (not v18658()['known'])) or (v18658()['bad'] and (not v18682()))):
        return o_Skip_17776(o_Norm_3294(v18636['d']), v18636['strict'])
    return o_V_17757(((((o_T_17572((v18686()['ok'] == (v18647['st'] == 'ok')), 'ok') + o_T_17572((((not v18686()['ok']) or (v18647['st'] != 'ok')) or (v18686()['a'] == v18647['a'])), 'ascii')) + o_T_17572(((v18667()['st'] in frozenset(('unknown', v18647['st'], ))) or (v18647['st'] == 'refuse')), 'model')) + o_T_17572((v18686()['ubad'] == v18658()['bad']), 'uerr')) + o_T_17572((v18686()['u'] == v18658()['u']), 'unicode')), {'a': v18647, 'u': v18658()})

K274 = frozenset((45, 46, 95, 126, ))
o_AlwaysSafe_18798 = K274

def o_SafeToSet_18824(v18799):
    return frozenset([v18803 for v18803 in range(0, 127 + 1) if (((not o_IsAlnum_2747(v18803)) and (v18803 not in o_AlwaysSafe_18798)) and all((ap(v18799(), v18815) != v18803) for v18815 in range(1, len(v18799()) + 1)))])

K275 = frozenset((o_cSP_2670, ))

def o_CheckPct_18892(v18825):
    def v18849(v18826):
        if v18825['plus']:
            return o_Force_2856(fcn(range(1, len(v18826) + 1), lambda v18834: (o_cPLUS_2678 if (ap(v18826, v18834) == o_cSP_2670) else ap(v18826, v18834))))
        return v18826
    v18862 = Th(lambda: (frozenset(o_SafeToSet_18824(Th(lambda: v18825['safe']))) - frozenset((K275 if v18825['plus'] else frozenset()))))
    v18881 = (lambda v18871: (v18871() if (len(v18871()) == 0) else v18849(v18871())))(Th(lambda: o_PctEncWith_6837(v18825['s'], Th(lambda: v18862()), v18825['enc'])))
    return o_V_17757(o_T_17572((v18825['obs'] == v18881), 'enc'), v18881)


def o_CheckDec_18909(v18893):
    return o_V_17757(o_T_17572((v18893['obs'] == o_StringPercentDecode_3809(v18893['s'])), 'dec'), o_StringPercentDecode_3809(v18893['s']))


def o_CheckU8d_18926(v18910):
    return o_V_17757(o_T_17572((v18910['obs'] == o_Utf8Decode_3720(v18910['b'])), 'u8d'), o_Utf8Decode_3720(v18910['b']))


def o_CheckU8e_18943(v18927):
    return o_V_17757(o_T_17572((v18927['obs'] == o_Utf8Encode_3405(v18927['s'])), 'u8e'), o_Utf8Encode_3405(v18927['s']))

K276 = o_SetOf_6630('$%&+,')
K277 = (frozenset(o_UserinfoSet_6662) | frozenset(K276))
o_ComponentSet_6667 = K277
K278 = o_SetOf_6630("!'()~")
K279 = (frozenset(o_ComponentSet_6667) | frozenset(K278))
o_FormSet_6672 = K279
K280 = (frozenset(o_FormSet_6672) - frozenset(K275))

def o_FormEncStr_7023(v6990, v6991):
    v6999 = o_PctEncWith_6837(v6990, Th(lambda: K280), v6991)
    if o_HasC_2936(v6999, o_cSP_2670):
        return o_Force_2856(fcn(range(1, len(v6999) + 1), lambda v7007: (o_cPLUS_2678 if (ap(v6999, v7007) == o_cSP_2670) else ap(v6999, v7007))))
    return v6999

K281 = (o_cEQ_2692, )
K282 = (o_cAMP_2676, )

def o_FormEncode_7053(v7024, v7025):
    return o_Join_3057(fcn(range(1, len(v7024) + 1), lambda v7030: ((o_FormEncStr_7023(ap(ap(v7024, v7030), 1), v7025()) + K281) + o_FormEncStr_7023(ap(ap(v7024, v7030), 2), v7025()))), K282)


def o_CheckFenc_18963(v18944):
    v18952 = o_FormEncode_7053(v18944['ps'], Th(lambda: v18944['enc']))
    return o_V_17757(o_T_17572((v18944['obs'] == v18952), 'fenc'), v18952)


def o_CheckFdec_18980(v18964):
    v18969 = o_FormDecode_7140(v18964['b'])
    return o_V_17757(o_T_17572((v18964['obs'] == v18969), 'fdec'), v18969)


def o_ListOfPairs_14162(v14135):
    if (len(v14135) == 0):
        return ()
    return o_Force_2856(fcn(range(1, len(v14135) + 1), lambda v14145: (o_Norm_3294(ap(ap(v14135, v14145), 1)), o_Norm_3294(ap(ap(v14135, v14145), 2)), )))


def o_CheckFrt_18997(v18981):
    v18986 = o_ListOfPairs_14162(v18981['ps'])
    return o_V_17757(o_T_17572((v18981['obs'] == v18986), 'frt'), v18986)


def o_SameOrigin_19023(v18998, v18999):
    return (((v18998['scheme'] == v18999['scheme']) and (v18998['host'] == v18999['host'])) and (v18998['port'] == v18999['port']))


def o_SameOriginDomain_19062(v19024, v19025, v19026, v19027):
    if ((len(v19026) == 1) and (len(v19027()) == 1)):
        return ((v19024()['scheme'] == v19025()['scheme']) and (v19026 == v19027()))
    return (((len(v19026) == 0) and (len(v19027()) == 0)) and o_SameOrigin_19023(v19024(), v19025()))

K283 = o_V_17757(K266, 'parses')

def o_CheckOrg_19308(v19063):
    v19073 = o_BasicParse_13620(Th(lambda: v19063['s']), (lambda: ()), 'utf-8', Th(lambda: v19063['env']))
    v19083 = Th(lambda: o_BasicParse_13620(Th(lambda: v19063['t']), (lambda: ()), 'utf-8', Th(lambda: v19063['env'])))
    v19091 = Th(lambda: o_Origin_13991(v19073['url'], Th(lambda: v19063['env'])))
    v19099 = Th(lambda: o_Origin_13991(v19083()['url'], Th(lambda: v19063['env'])))
    v19103 = Th(lambda: v19063['obs'])
    v19113 = Th(lambda: ((len(v19091()) == 1) and (len(v19099()) == 1)))
    v19123 = Th(lambda: (v19113() and o_SameOrigin_19023(ap(v19091(), 1), ap(v19099(), 1))))
    v19139 = Th(lambda: (v19113() and o_SameOriginDomain_19062(Th(lambda: ap(v19091(), 1)), Th(lambda: ap(v19099(), 1)), v19063['da'], Th(lambda: v19063['db']))))
    if (v19073['fail'] == 'unknown'):
        return o_Need_17788(v19073)
    if (v19083()['fail'] == 'unknown'):
        return o_Need_17788(v19083())
    if ((v19073['st'] == 'fail') or (v19083()['st'] == 'fail')):
        return o_V_17757(o_T_17572((not v19103()['ok']), 'ok'), 'failure')
    if (len(o_OriginNeed_17858(v19073['url'], Th(lambda: v19063['env']))) == 1):
        return o_Skip_17776(ap(o_OriginNeed_17858(v19073['url'], Th(lambda: v19063['env'])), 1), False)
    if (len(o_OriginNeed_17858(v19083()['url'], Th(lambda: v19063['env']))) == 1):
        return o_Skip_17776(ap(o_OriginNeed_17858(v19083()['url'], Th(lambda: v19063['env'])), 1), False)
    if (not v19103()['ok']):
        return K283
    return o_V_17757(((((o_T_17572((v19103()['o1'] == o_OptOrigin_17819(v19073['url'], Th(lambda: v19063['env']))), 'origin') + o_T_17572((v19103()['o2'] == o_OptOrigin_17819(v19083()['url'], Th(lambda: v19063['env']))), 'origin')) + o_T_17572((v19103()['s1'] == o_OriginSer_14086(v19091())), 'ser')) + o_T_17572((v19103()['s2'] == o_OriginSer_14086(v19099())), 'ser')) + ((o_T_17572((v19103()['so'] == v19123()), 'same') + o_T_17572((v19103()['sod'] == v19139()), 'samedomain')) if v19113() else ())), {'o1': v19091(), 'o2': v19099(), 'so': v19123(), 'sod': v19139()})


def o_CheckEq_19466(v19309):
    v19319 = o_ParseUrl_13707(Th(lambda: v19309['s']), (), (lambda: 'utf-8'), Th(lambda: v19309['env']))
    v19329 = Th(lambda: o_ParseUrl_13707(Th(lambda: v19309['t']), (), (lambda: 'utf-8'), Th(lambda: v19309['env'])))
    v19339 = Th(lambda: (o_Href_13875(v19319['url']) == o_Href_13875(v19329()['url'])))
    v19351 = Th(lambda: (o_UrlSer_13870(v19319['url'], True) == o_UrlSer_13870(v19329()['url'], True)))
    v19355 = Th(lambda: v19309['obs'])
    if (v19319['fail'] == 'unknown'):
        return o_Need_17788(v19319)
    if (v19329()['fail'] == 'unknown'):
        return o_Need_17788(v19329())
    if ((v19319['st'] == 'fail') or (v19329()['st'] == 'fail')):
        return o_V_17757(o_T_17572((not v19355()['ok']), 'ok'), 'failure')
    if (not v19355()['ok']):
        return K283
    return o_V_17757(((((((o_T_17572((v19355()['eq'] == v19339()), 'eq') + o_T_17572((v19355()['ne'] == (not v19339())), 'ne')) + o_T_17572((v19355()['eqf'] == v19339()), 'equals')) + o_T_17572((v19355()['eqnf'] == v19351()), 'equalsnf')) + o_T_17572((v19355()['req'] == v19339()), 'receq')) + o_T_17572((v19355()['reqnf'] == v19351()), 'receqnf')) + o_T_17572((v19355()['sym'] == v19339()), 'sym')), {'eq': v19339(), 'eqnf': v19351()})


def o_ParseWith_16027(v15977, v15978, v15979, v15980):
    if (v15979['k'] == 'none'):
        return o_BasicParse_13620((lambda: v15978()), (lambda: ()), 'utf-8', (lambda: v15980))
    if (v15979['k'] == 'str'):
        return o_ParseUrl_13707((lambda: v15978()), (v15979['s'], ), (lambda: 'utf-8'), (lambda: v15980))
    if (v15979['k'] == 'obj'):
        return o_BasicParse_13620((lambda: v15978()), Th(lambda: (ap(v15977['urls'], v15979['i'])['u'], )), 'utf-8', (lambda: v15980))
    return no_case()


def o_WRes_15976(v15963, v15964, v15965):
    return {'w': v15963, 'exc': v15964, 'ret': v15965}


def o_NewObj_15441(v15426):
    return {'u': v15426['url'], 'list': o_ListOfQuery_14104(v15426['url']['query'])}

K284 = (1, )
K285 = (0, )

def o_B_15111(v15104):
    if v15104:
        return K284
    return K285


def o_Res_14640(v14627, v14628, v14629):
    return {'o': v14627, 'exc': v14628, 'ret': v14629}


def o_FromRun_14670(v14641, v14642):
    return o_Res_14640(exc(v14641, ('u', ), lambda at: v14642['url']), v14642['fail'], (ap(v14642['errs'], len(v14642['errs'])) if (v14642['fail'] == 'unknown') else ()))


def o_Noop_14676(v14671):
    return o_Res_14640(v14671, '', ())


def o_RStripSp_14573(v14574):
    while True:
        if ((len(v14574) > 0) and (ap(v14574, len(v14574)) == o_cSP_2670)):
            v14574 = subseq(v14574, 1, (len(v14574) - 1))
            continue
        return v14574


def o_StripOpaque_14626(v14596):
    if ((v14596['opq'] and (len(v14596['query']) == 0)) and (len(v14596['frag']) == 0)):
        return exc(v14596, ('path', ), lambda at: (o_RStripSp_14573(ap(at, 1)), ))
    return v14596


def o_StripQ_14116(v14105):
    if (o_Ch_2834(v14105, 1) == o_cQ_2694):
        return o_From_2842(v14105, 2)
    return v14105


def o_StripHash_14128(v14117):
    if (o_Ch_2834(v14117, 1) == o_cHASH_2672):
        return o_From_2842(v14117, 2)
    return v14117


def o_SetAttr_14992(v14689, v14690, v14691, v14692):
    v14696 = Th(lambda: v14689()['u'])
    if (v14690 == 'href'):
        v14705 = o_BasicParse_13620((lambda: v14691()), (lambda: ()), 'utf-8', (lambda: v14692))
        if (v14705['fail'] == 'unknown'):
            return o_Res_14640(v14689(), v14705['fail'], ap(v14705['errs'], len(v14705['errs'])))
        if (v14705['st'] == 'fail'):
            return o_Res_14640(v14689(), v14705['fail'], ())
        return o_Res_14640({'u': v14705['url'], 'list': o_ListOfQuery_14104(v14705['url']['query'])}, '', ())
    if (v14690 == 'protocol'):
        return o_FromRun_14670(v14689(), o_OverrideParse_13656((lambda: app(v14691(), o_cCOLON_2688)), v14696(), 'scheme start', (lambda: 'utf-8'), (lambda: v14692)))
    if (v14690 == 'username'):
        if o_CannotHaveCreds_10629(v14696()):
            return o_Noop_14676(v14689())
        return o_Res_14640(exc(v14689(), ('u', 'user', ), lambda at: o_PctEnc_6747(v14691(), o_UserinfoSet_6662)), '', ())
    if (v14690 == 'password'):
        if o_CannotHaveCreds_10629(v14696()):
            return o_Noop_14676(v14689())
        return o_Res_14640(exc(v14689(), ('u', 'pass', ), lambda at: o_PctEnc_6747(v14691(), o_UserinfoSet_6662)), '', ())
    if (v14690 == 'host'):
        if v14696()['opq']:
            return o_Noop_14676(v14689())
        return o_FromRun_14670(v14689(), o_OverrideParse_13656((lambda: v14691()), v14696(), 'host', (lambda: 'utf-8'), (lambda: v14692)))
    if (v14690 == 'hostname'):
        if v14696()['opq']:
            return o_Noop_14676(v14689())
        return o_FromRun_14670(v14689(), o_OverrideParse_13656((lambda: v14691()), v14696(), 'hostname', (lambda: 'utf-8'), (lambda: v14692)))
    if (v14690 == 'port'):
        if o_CannotHaveCreds_10629(v14696()):
            return o_Noop_14676(v14689())
        if (len(v14691()) == 0):
            return o_Res_14640(exc(v14689(), ('u', 'port', ), lambda at: (-1)), '', ())
        return o_FromRun_14670(v14689(), o_OverrideParse_13656((lambda: v14691()), v14696(), 'port', (lambda: 'utf-8'), (lambda: v14692)))
    if (v14690 == 'pathname'):
        if v14696()['opq']:
            return o_Noop_14676(v14689())
        return o_FromRun_14670(v14689(), o_OverrideParse_13656((lambda: v14691()), exc(v14696(), ('path', ), lambda at: ()), 'path start', (lambda: 'utf-8'), (lambda: v14692)))
    if (v14690 == 'search'):
        v14933 = (o_StripOpaque_14626(exc(v14696(), ('query', ), lambda at: ())) if (len(v14691()) == 0) else o_OverrideParse_13656(Th(lambda: o_StripQ_14116(v14691())), exc(v14696(), ('query', ), lambda at: o_NonEmptyQ_10973), 'query', (lambda: 'utf-8'), (lambda: v14692))['url'])
        return o_Res_14640({'u': v14933, 'list': o_ListOfQuery_14104(v14933['query'])}, '', ())
    if (v14690 == 'hash'):
        v14978 = Th(lambda: (o_StripOpaque_14626(exc(v14696(), ('frag', ), lambda at: ())) if (len(v14691()) == 0) else o_OverrideParse_13656(Th(lambda: o_StripHash_14128(v14691())), exc(v14696(), ('frag', ), lambda at: o_NonEmptyQ_10973), 'fragment', (lambda: 'utf-8'), (lambda: v14692))['url']))
        return o_Res_14640(exc(v14689(), ('u', ), lambda at: v14978()), '', ())
    return no_case()


def o_LStr_14432(v14428):
    return o_FormEncode_7053(v14428, (lambda: 'utf-8'))


def o_UpdateUrl_15082(v15057, v15058):
    v15061 = o_LStr_14432(v15058)
    if (len(v15061) > 0):
        return exc(v15057, ('query', ), lambda at: (v15061, ))
    return o_StripOpaque_14626(exc(v15057, ('query', ), lambda at: ()))


def o_LAppend_14296(v14286, v14287, v14288):
    return app(v14286, (o_Norm_3294(v14287), o_Norm_3294(v14288), ))


def o_LAMBDA_14323(v14301):
    return (not ((ap(v14301, 1) == o_Norm_3294(v14298)) and ((len(v14299) == 0) or (ap(v14301, 2) == o_Norm_3294(ap(v14299, 1))))))


def o_LDelete_14326(v14297, v14298, v14299):
    return tuple(filter((lambda v14301: (not ((ap(v14301, 1) == o_Norm_3294(v14298())) and ((len(v14299()) == 0) or (ap(v14301, 2) == o_Norm_3294(ap(v14299(), 1))))))), v14297))


def o_LAMBDA_14340(v14334):
    return (ap(v14334, 1) == v14332)


def o_LAMBDA_14376(v14370):
    return (ap(v14370, 1) != v14332)


def o_LSet_14382(v14327, v14328, v14329):
    v14332 = Th(lambda: o_Norm_3294(v14328))
    v14343 = (lambda s_: sel_first(s_, 1, len(s_), (lambda v14334: (ap(v14334, 1) == v14332()))))(v14327)
    if (v14343 == 0):
        return o_LAppend_14296(v14327, v14328, v14329)
    return ((subseq(v14327, 1, (v14343 - 1)) + ((v14332(), o_Norm_3294(v14329), ), )) + tuple(filter((lambda v14370: (ap(v14370, 1) != v14332())), subseq(v14327, (v14343 + 1), len(v14327)))))


def o_LexLess_3847(v3848, v3849, v3850):
    if (v3850 > len(v3849)):
        return False
    if (v3850 > len(v3848())):
        return True
    if (ap(v3848(), v3850) != ap(v3849, v3850)):
        return (ap(v3848(), v3850) < ap(v3849, v3850))
    return o_LexLess_3847((lambda: v3848()), v3849, (v3850 + 1))


def o_LAMBDA_3837(v3811, v3812):
    if (v3812 < 65536):
        return app(v3811, v3812)
    return (v3811 + ((55296 + ((v3812 - 65536) // 1024)), (56320 + ((v3812 - 65536) % 1024)), ))


def o_Units_3842(v3810):
    return reduce((lambda v3811, v3812: (app(v3811, v3812) if (v3812 < 65536) else (v3811 + ((55296 + ((v3812 - 65536) // 1024)), (56320 + ((v3812 - 65536) % 1024)), )))), v3810, ())


def o_CodeUnitLess_3892(v3884, v3885):
    return o_LexLess_3847(Th(lambda: o_Units_3842(v3884())), o_Units_3842(v3885), 1)


def o_LAMBDA_14394(v14386):
    return o_CodeUnitLess_3892(Th(lambda: ap(v14384, 1)), ap(v14386, 1))


def o_InsertSorted_14421(v14383, v14384):
    v14397 = (lambda s_: sel_first(s_, 1, len(s_), (lambda v14386: o_CodeUnitLess_3892(Th(lambda: ap(v14384, 1)), ap(v14386, 1)))))(v14383)
    if (v14397 == 0):
        return app(v14383, v14384)
    return ((subseq(v14383, 1, (v14397 - 1)) + (v14384, )) + subseq(v14383, v14397, len(v14383)))


def o_LSort_14427(v14422):
    return reduce(o_InsertSorted_14421, v14422, ())


def o_ListOp_15050(v14993, v14994):
    if (v14994['op'] == 'append'):
        return o_LAppend_14296(v14993, v14994['n'], ap(v14994['v'], 1))
    if (v14994['op'] == 'delete'):
        return o_LDelete_14326(v14993, Th(lambda: v14994['n']), Th(lambda: v14994['v']))
    if (v14994['op'] == 'set'):
        return o_LSet_14382(v14993, v14994['n'], ap(v14994['v'], 1))
    if (v14994['op'] == 'sort'):
        return o_LSort_14427(v14993)
    return no_case()


def o_ParamsOp_15103(v15083, v15084):
    v15090 = o_ListOp_15050(v15083['list'], v15084)
    return {'u': o_UpdateUrl_15082(v15083['u'], v15090), 'list': v15090}


def o_LAMBDA_14210(v14203):
    return (ap(v14203, 1) == o_Norm_3294(v14201))


def o_LGetAll_14233(v14200, v14201):
    v14213 = tuple(filter((lambda v14203: (ap(v14203, 1) == o_Norm_3294(v14201()))), v14200))
    if (len(v14213) == 0):
        return ()
    return o_Force_2856(fcn(range(1, len(v14213) + 1), lambda v14223: ap(ap(v14213, v14223), 2)))


def o_LGet_14251(v14234, v14235):
    v14239 = o_LGetAll_14233(v14234, (lambda: v14235()))
    if (len(v14239) == 0):
        return ()
    return (ap(v14239, 1), )


def o_LHas_14285(v14252, v14253, v14254):
    return any(((ap(ap(v14252, v14259), 1) == o_Norm_3294(v14253())) and ((len(v14254()) == 0) or (ap(ap(v14252, v14259), 2) == o_Norm_3294(ap(v14254(), 1))))) for v14259 in range(1, len(v14252) + 1))


def o_LAt_15141(v15112, v15113):
    v15123 = ((v15113 + len(v15112)) if (v15113 < 0) else v15113)
    if ((v15123 < 0) or (v15123 >= len(v15112))):
        return ()
    return (ap(v15112, (v15123 + 1)), )


def o_SliceEnd_15195(v15142, v15143, v15144, v15145):
    if (len(v15142) == 0):
        return v15145()
    v15165 = ((ap(v15142, 1) + v15143()) if (ap(v15142, 1) < 0) else ap(v15142, 1))
    if v15144():
        if (v15165 < 0):
            return 0
        if (v15165 > v15143()):
            return v15143()
        return v15165
    if (v15165 < 0):
        return (-1)
    if (v15165 >= v15143()):
        return (v15143() - 1)
    return v15165


def o_LSlice_15278(v15196, v15197, v15198, v15199):
    v15202 = len(v15196)
    v15206 = (v15199 > 0)
    v15217 = o_SliceEnd_15195(v15197, Th(lambda: v15202), Th(lambda: v15206), Th(lambda: (0 if v15206 else (v15202 - 1))))
    v15227 = o_SliceEnd_15195(v15198, Th(lambda: v15202), Th(lambda: v15206), Th(lambda: (v15202 if v15206 else (-1))))
    v15259 = (((((v15227 - v15217) + (v15199 - 1)) // v15199) if (v15227 > v15217) else 0) if v15206 else (((((v15217 - v15227) - v15199) - 1) // (-v15199)) if (v15217 > v15227) else 0))
    return o_Force_2856(fcn(range(1, v15259 + 1), lambda v15263: ap(v15196, ((v15217 + ((v15263 - 1) * v15199)) + 1))))


def o_ListQuery_15425(v15279, v15280):
    if (v15280['op'] == 'get'):
        return o_LGet_14251(v15279(), Th(lambda: v15280['n']))
    if (v15280['op'] == 'get_all'):
        return o_LGetAll_14233(v15279(), Th(lambda: v15280['n']))
    if (v15280['op'] == 'has'):
        return o_B_15111(o_LHas_14285(v15279(), Th(lambda: v15280['n']), Th(lambda: v15280['v'])))
    if (v15280['op'] == 'in'):
        return o_B_15111(o_LHas_14285(v15279(), Th(lambda: v15280['n']), (lambda: ())))
    if (v15280['op'] == 'len'):
        return (len(v15279()), )
    if (v15280['op'] == 'str'):
        return o_LStr_14432(v15279())
    if (v15280['op'] == 'add'):
        return (o_LStr_14432(v15279()) + v15280['n'])
    if (v15280['op'] == 'keys'):
        return o_Force_2856(fcn(range(1, len(v15279()) + 1), lambda v15369: ap(ap(v15279(), v15369), 1)))
    if (v15280['op'] == 'values'):
        return o_Force_2856(fcn(range(1, len(v15279()) + 1), lambda v15387: ap(ap(v15279(), v15387), 2)))
    if (v15280['op'] == 'at'):
        return o_LAt_15141(v15279(), v15280['i'])
    if (v15280['op'] == 'slice'):
        return o_LSlice_15278(v15279(), v15280['i'], v15280['j'], v15280['st'])
    return no_case()


def o_PrepRec_16067(v16028, v16029):
    if (v16029 == 'path start'):
        return exc(exc(v16028, ('path', ), lambda at: ()), ('opq', ), lambda at: False)
    if (v16029 == 'query'):
        return exc(v16028, ('query', ), lambda at: o_NonEmptyQ_10973)
    if (v16029 == 'fragment'):
        return exc(v16028, ('frag', ), lambda at: o_NonEmptyQ_10973)
    return v16028


def o_ListOfStr_14134(v14129):
    return o_FormDecode_7140(o_Utf8Encode_3405(o_StripQ_14116(v14129)))


def o_LAMBDA_14174(v14166):
    return (ap(v14166, 1) == ap(v14164, 1))


def o_PutPair_14192(v14163, v14164):
    v14177 = (lambda s_: sel_first(s_, 1, len(s_), (lambda v14166: (ap(v14166, 1) == ap(v14164, 1)))))(v14163)
    if (v14177 == 0):
        return app(v14163, v14164)
    return exc(v14163, (v14177, ), lambda at: v14164)


def o_ListOfMap_14199(v14193):
    return reduce(o_PutPair_14192, o_ListOfPairs_14162(v14193), ())


def o_InitList_16140(v16068, v16069):
    if (v16069['k'] == 'none'):
        return ()
    if (v16069['k'] == 'str'):
        return o_ListOfStr_14134(v16069['s'])
    if (v16069['k'] == 'pairs'):
        return o_ListOfPairs_14162(v16069['ps'])
    if (v16069['k'] == 'map'):
        return o_ListOfMap_14199(v16069['ps'])
    if (v16069['k'] == 'par'):
        return o_ListOfStr_14134(o_LStr_14432(ap(v16068['pars'], v16069['i'])))
    if (v16069['k'] == 'upar'):
        return o_ListOfStr_14134(o_LStr_14432(ap(v16068['urls'], v16069['i'])['list']))
    return no_case()


def o_Apply_16602(v16141, v16142, v16143):
    if (v16142['op'] == 'new'):
        v16158 = o_ParseWith_16027(v16141, Th(lambda: v16142['s']), v16142['b'], v16143())
        if (v16158['fail'] == 'unknown'):
            return o_WRes_15976(v16141, 'unknown', ap(v16158['errs'], len(v16158['errs'])))
        if (v16158['st'] == 'fail'):
            return o_WRes_15976(v16141, v16158['fail'], ())
        return o_WRes_15976(exc(v16141, ('urls', ), lambda at: app(at, o_NewObj_15441(v16158))), '', ())
    if (v16142['op'] == 'can'):
        v16216 = o_ParseWith_16027(v16141, Th(lambda: v16142['s']), v16142['b'], v16143())
        if (v16216['fail'] == 'unknown'):
            return o_WRes_15976(v16141, 'unknown', ap(v16216['errs'], len(v16216['errs'])))
        return o_WRes_15976(v16141, '', o_B_15111((v16216['st'] != 'fail')))
    if (v16142['op'] == 'set'):
        v16265 = o_SetAttr_14992(Th(lambda: ap(v16141['urls'], v16142['i'])), v16142['a'], Th(lambda: v16142['v']), v16143())
        return o_WRes_15976(exc(v16141, ('urls', v16142['i'], ), lambda at: v16265['o']), v16265['exc'], v16265['ret'])
    if (v16142['op'] == 'upar'):
        return o_WRes_15976(exc(v16141, ('urls', v16142['i'], ), lambda at: o_ParamsOp_15103(at, v16142['p'])), '', ())
    if (v16142['op'] == 'uqry'):
        return o_WRes_15976(v16141, '', o_ListQuery_15425(Th(lambda: ap(v16141['urls'], v16142['i'])['list']), v16142['p']))
    if (v16142['op'] == 'shorten'):
        return o_WRes_15976(exc(v16141, ('urls', v16142['i'], 'u', ), lambda at: o_Shorten_10867(at)), '', ())
    if (v16142['op'] == 'rovr'):
        v16364 = ap(v16141['urls'], v16142['i'])['u']
        v16392 = o_FromRun_14670(ap(v16141['urls'], v16142['i']), o_OverrideParse_13656(Th(lambda: v16142['v']), (o_PrepRec_16067(v16364, v16142['st']) if v16142['prep'] else v16364), v16142['st'], (lambda: 'utf-8'), (lambda: v16143())))
        return o_WRes_15976(exc(v16141, ('urls', v16142['i'], ), lambda at: v16392['o']), v16392['exc'], v16392['ret'])
    if (v16142['op'] == 'attach'):
        return o_WRes_15976(exc(v16141, ('urls', v16142['i'], 'list', ), lambda at: o_ListOfQuery_14104(ap(v16141['urls'], v16142['i'])['u']['query'])), '', ())
    if (v16142['op'] == 'npar'):
        if ((v16142['x']['k'] == 'pairs') and any((len(ap(v16142['x']['ps'], v16463)) != 2) for v16463 in range(1, len(v16142['x']['ps']) + 1))):
            return o_WRes_15976(v16141, 'ValueError', ())
        return o_WRes_15976(exc(v16141, ('pars', ), lambda at: app(at, o_InitList_16140(v16141, v16142['x']))), '', ())
    if (v16142['op'] == 'par'):
        return o_WRes_15976(exc(v16141, ('pars', v16142['i'], ), lambda at: o_ListOp_15050(at, v16142['p'])), '', ())
    if (v16142['op'] == 'pqry'):
        return o_WRes_15976(v16141, '', o_ListQuery_15425(Th(lambda: ap(v16141['pars'], v16142['i'])), v16142['p']))
    if (v16142['op'] == 'eq'):
        return o_WRes_15976(v16141, '', o_B_15111((o_UrlSer_13870(ap(v16141['urls'], v16142['i'])['u'], v16142['x']) == o_UrlSer_13870(ap(v16141['urls'], v16142['j'])['u'], v16142['x']))))
    if (v16142['op'] == 'peq'):
        return o_WRes_15976(v16141, '', o_B_15111((ap(v16141['pars'], v16142['i']) == ap(v16141['pars'], v16142['j']))))
    return no_case()


def o_Seen_16642(v16603):
    return {'urls': (fcn(range(1, len(v16603['urls']) + 1), lambda v16611: {'href': o_Href_13875(ap(v16603['urls'], v16611)['u']), 'list': ap(v16603['urls'], v16611)['list']}) + ()), 'pars': v16603['pars']}


def o_RtExempt_15468(v15442):
    return ((v15442['scheme'] == o_sFile_10510) and ((v15442['host'] == o_LocalHost_10675) or ((len(v15442['path']) > 0) and o_IsDrive_10700(ap(v15442['path'], 1)))))


def o_CheckEvent_19760(v19467, v19468, v19469):
    v19476 = o_Apply_16602(v19468, v19469, Th(lambda: v19467['env']))
    v19480 = v19469['obs']
    v19485 = o_Seen_16642(v19476['w'])
    v19495 = Th(lambda: (len(v19480['urls']) == len(v19485['urls'])))
    v19526 = (() if ((v19480['gi'] == 0) or (v19480['gi'] > len(v19476['w']['urls']))) else (ap(v19476['w']['urls'], v19480['gi'])['u'], ))
    v19692 = Th(lambda: (((((((o_T_17572((v19495() and (len(v19480['pars']) == len(v19485['pars']))), 'objects') + o_When_17602(v19467, 'raises', Th(lambda: ((v19476['exc'] == '') == (v19480['exc'] == ''))))) + o_When_17602(v19467, 'cls', Th(lambda: (((v19476['exc'] == '') != (v19480['exc'] == '')) or (v19480['exc'] == v19476['exc']))))) + o_When_17602(v19467, 'ret', Th(lambda: (v19480['ret'] == v19476['ret'])))) + o_When_17602(v19467, 'href', Th(lambda: (v19495() and all((ap(v19480['urls'], v19598)['href'] == ap(v19485['urls'], v19598)['href']) for v19598 in range(1, len(v19485['urls']) + 1)))))) + o_When_17602(v19467, 'list', Th(lambda: ((not v19495()) or all((ap(v19480['urls'], v19628)['list'] == ap(v19485['urls'], v19628)['list']) for v19628 in range(1, len(v19485['urls']) + 1)))))) + o_When_17602(v19467, 'pars', Th(lambda: (v19480['pars'] == v19485['pars'])))) + (() if (len(v19526) == 0) else (o_When_17602(v19467, 'g', Th(lambda: (v19480['g'] == o_Getters_14570(ap(v19526, 1), Th(lambda: v19467['env']))))) + o_When_17602(v19467, 'rt', Th(lambda: (o_RtExempt_15468(ap(v19526, 1)) or v19480['rt'])))))))
    v19711 = (() if ((len(v19526) == 0) or (not o_Has_17590(v19467, 'g'))) else o_OriginNeed_17858(ap(v19526, 1), Th(lambda: v19467['env'])))
    if (len(v19711) == 1):
        return {'w': v19476['w'], 'exc': 'unknown', 'tags': (), 'ret': ap(v19711, 1), 'seen': v19485}
    return {'w': v19476['w'], 'exc': v19476['exc'], 'tags': v19692(), 'ret': v19476['ret'], 'seen': v19485}

K286 = o_V_17757((), ())

def o_CheckFrom_19765(v19766, v19767, v19768):
    if (v19768 > len(v19766['ev'])):
        return K286
    v19786 = o_CheckEvent_19760(v19766, v19767(), ap(v19766['ev'], v19768))
    if (v19786['exc'] == 'unknown'):
        return o_Skip_17776(v19786['ret'], False)
    if (len(v19786['tags']) > 0):
        return o_V_17757(v19786['tags'], {'at': v19768, 'exc': v19786['exc'], 'ret': v19786['ret'], 'seen': v19786['seen']})
    return o_CheckFrom_19765(v19766, Th(lambda: v19786['w']), (v19768 + 1))

o_EmptyWorld_15962 = {'urls': (), 'pars': ()}

def o_CheckHist_19843(v19838):
    return o_CheckFrom_19765(v19838, (lambda: o_EmptyWorld_15962), 1)


def o_CheckRq_19941(v19844):
    v19848 = v19844['rec']
    v19852 = Th(lambda: v19844['obs'])
    if (o_Has_17590(v19844, 'origin') and (len(o_OriginNeed_17858(v19848, Th(lambda: v19844['env']))) == 1)):
        return o_Skip_17776(ap(o_OriginNeed_17858(v19848, Th(lambda: v19844['env'])), 1), False)
    return o_V_17757((((o_T_17572((v19852()['q'] == o_RecQ_13937(v19848)), 'q') + o_T_17572((v19852()['rec'] == v19848), 'rec')) + o_When_17602(v19844, 'origin', Th(lambda: (v19852()['origin'] == o_OptOrigin_17819(v19848, Th(lambda: v19844['env'])))))) + o_When_17602(v19844, 'eq', Th(lambda: ((v19852()['eq'] and (v19852()['same'] == (o_Href_13875(v19848) == o_Href_13875(v19844['alt'])))) and (v19852()['samenf'] == (o_UrlSer_13870(v19848, True) == o_UrlSer_13870(v19844['alt'], True))))))), o_RecQ_13937(v19848))


def o_VsCall_16960(v16746, v16747, v16748, v16749):
    def v16768(v16750, v16751):
        return {'known': True, 'd': (), 'strict': False, 'ok': v16750, 'held': v16751}
    def v16787(v16769, v16770):
        return {'known': False, 'd': v16769, 'strict': v16770, 'ok': False, 'held': v16746}
    v16815 = Th(lambda: (o_OverrideParse_13656(Th(lambda: v16747['s']), v16747['rec'], v16747['st'], (lambda: 'utf-8'), (lambda: v16749())) if (v16747['f'] == 'ovr') else o_ParseUrl_13707(Th(lambda: v16747['s']), v16747['base'], (lambda: 'utf-8'), (lambda: v16749()))))
    if (v16747['f'] == 'host'):
        v16829 = o_HostParse_10412(v16747['s'], Th(lambda: v16747['ns']), (lambda: v16749()))
        if v16829['known']:
            return v16768(v16829['ok'], (v16746 + v16829['errs']))
        return v16787(ap(v16829['errs'], len(v16829['errs'])), False)
    if (v16747['f'] == 'hval'):
        v16869 = o_HvalErr_16717(v16747['fn'], v16747['s'], v16748, (lambda: v16749()))
        if v16869['known']:
            return v16768((len(v16869['errs']) == 0), v16869['errs'])
        return v16787(o_Norm_3294(v16747['s']), True)
    if (v16815()['fail'] == 'unknown'):
        return v16787(ap(v16815()['errs'], len(v16815()['errs'])), False)
    if (v16747['f'] == 'can'):
        return v16768((v16815()['st'] == 'done'), v16815()['errs'])
    if (v16747['f'] == 'valid'):
        v16929 = o_ParseValErrs_16745(v16815(), v16748)
        return v16768(((v16815()['st'] == 'done') and (len(v16929) == 0)), v16929)
    return v16768((v16815()['st'] == 'done'), (v16746 + v16815()['errs']))


def o_CheckVsFrom_19946(v19947, v19948, v19949):
    if (v19949 > len(v19947['ev'])):
        return K286
    v19970 = o_VsCall_16960(v19948(), ap(v19947['ev'], v19949), o_Registry_17564, Th(lambda: v19947['env']))
    v19978 = Th(lambda: ap(v19947['ev'], v19949)['obs'])
    v20014 = Th(lambda: (((o_T_17572((v19978()['ok'] == v19970['ok']), 'ok') + o_T_17572((v19978()['plain'] == v19970['ok']), 'plain')) + o_T_17572(o_SameErrs_17658(v19970['held'], v19978()['errs']), 'errs')) + o_T_17572(v19978()['tidy'], 'tidy')))
    if (not v19970['known']):
        return o_Skip_17776(v19970['d'], v19970['strict'])
    if (len(v20014()) > 0):
        return o_V_17757(v20014(), {'at': v19949, 'ok': v19970['ok'], 'held': v19970['held']})
    return o_CheckVsFrom_19946(v19947, Th(lambda: v19970['held']), (v19949 + 1))


def o_CheckVs_20063(v20058):
    return o_CheckVsFrom_19946(v20058, (lambda: ()), 1)


def o_CheckSeqFrom_20145(v20146, v20147):
    while True:
        if (v20147 > len(v20146['cs'])):
            return K286
        v20170 = o_Check_20141(exc(ap(v20146['cs'], v20147), ('env', ), lambda at: v20146['env']))
        if v20170['skip']:
            return v20170
        if (len(v20170['tags']) > 0):
            return o_V_17757(v20170['tags'], {'at': v20147, 'exp': v20170['exp']})
        v20147 = (v20147 + 1)
        continue

K287 = o_Skip_17776((), False)
K288 = ('crash', )
K289 = o_V_17757(K288, 'no exception other than URLParseError')

def o_Check_20141(v20203):
    if ((v20203['crash'] == '') and o_Outside_20138(v20203)):
        return K287
    if (v20203['crash'] != ''):
        return K289
    if (v20203['k'] == 'parse'):
        return o_CheckParse_18199(v20203)
    if (v20203['k'] == 'ovr'):
        return o_CheckOvr_18328(v20203)
    if (v20203['k'] == 'host'):
        return o_CheckHost_18472(v20203)
    if (v20203['k'] == 'hval'):
        return o_CheckHval_18541(v20203)
    if (v20203['k'] == 'v6ser'):
        return o_CheckV6Ser_18588(v20203)
    if (v20203['k'] == 'v4ser'):
        return o_CheckV4Ser_18635(v20203)
    if (v20203['k'] == 'idna'):
        return o_CheckIdna_18792(v20203)
    if (v20203['k'] == 'pct'):
        return o_CheckPct_18892(v20203)
    if (v20203['k'] == 'dec'):
        return o_CheckDec_18909(v20203)
    if (v20203['k'] == 'u8d'):
        return o_CheckU8d_18926(v20203)
    if (v20203['k'] == 'u8e'):
        return o_CheckU8e_18943(v20203)
    if (v20203['k'] == 'fenc'):
        return o_CheckFenc_18963(v20203)
    if (v20203['k'] == 'fdec'):
        return o_CheckFdec_18980(v20203)
    if (v20203['k'] == 'frt'):
        return o_CheckFrt_18997(v20203)
    if (v20203['k'] == 'org'):
        return o_CheckOrg_19308(v20203)
    if (v20203['k'] == 'eq'):
        return o_CheckEq_19466(v20203)
    if (v20203['k'] == 'hist'):
        return o_CheckHist_19843(v20203)
    if (v20203['k'] == 'rq'):
        return o_CheckRq_19941(v20203)
    if (v20203['k'] == 'vs'):
        return o_CheckVs_20063(v20203)
    if (v20203['k'] == 'seq'):
        return o_CheckSeqFrom_20145(v20203, 1)
    return no_case()


def set_registry(r):
    global o_Registry_17564
    o_Registry_17564 = frozenset(r)

check = o_Check_20141
