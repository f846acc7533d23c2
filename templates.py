"""Document templates (see vtool.template for the notation)."""

GENERIC = ['«@any»', '«@any*2»', '«@struct*4»', 'a = «@struct*3»', 'a = 1«@any*2»', '[«@struct*3»]\n', 'k = [«@struct*3»]\n', 'k = {«@struct*3»}\n']


STR = ['s = "«@any*2»"\n', "s = '«@any*2»'\n", 's = """«@any*3»"""\n', "s = '''«@any*3»'''\n", 's = "\\«@any»«@any»"\n', 's = "\\u«=+-0dDfF»«=078fFdD»«=08fF»«=0fF9»"\n',
       's = "\\U00«=01f+»«=01fg»«=08fF»«=0fF9»f«=0f»"\n', 's = "\\x«=0+8fg-»«=0+8fg"»"\n',
       's = """\\«=\\"n»«="\\»«="\\»""""\n', 's = """a\\«@any»«=\n \t\\"b»«=\n \t\\"b»"""\n', 's = """«=\n\r"»«=\n\r"a»«=\n\r"a»"""\n', "s = '''«=\n\r'»«=\n\r'a»«=\n\r'a»'''\n"]
NUM = ['n = «=+-01»«=_019»«=_.01eEb:|»«=_.eE01+-»\n', 'n = 1«=_.01eE»«=_.eE01+-»«=_.eE0+-»\n', 'n = «=+-0»0«=_.eE0»«=_.eE01+-»«=_.eE01+-»\n', 'n = 0«=xobX_1»«=019aA_+-g»«=019aA_+-g»«=019aA_+-g»\n', 'n = «=-+1»«=in0»«=na1»«=fn0»\n', 'n = 1«=eE.»«=+-_05»«=+-_05.»«=+-_05.eE»\n', 'n = 1«=_.eE»1«=_.eE»«=+-1_.»1«=eE._0»\n',
       'n = «=-+9»922337203685477580«=5-9»\n'.replace('5-9', '56789'), 'n = 0x«=078f»fffffffffffffff\n', 'n = «=tfT»«=raR»«=ulU»«=esE»«=e,  »\n']
DATE = ['d = 20«@digit»0-0«@digit»-«=0123»«@digit»\n', 'd = 1«=09»«=0»«=04»-02-2«=89»T00:00:00Z\n', 'd = 2000-01-01«=Tt _Z»«=012»«@digit»:«=0569»«@digit»:«=0569»«@digit»\n', 'd = «=012»«=0349»:«=0569»0«=:. Z\n»«=0569»0\n',
        'd = 2000-01-01T00:00«=:Z+\n»0«=0:»«=.Zz+-0»«=0Z»«=0:Z»«=0Z»\n', 'd = 2000-01-01T00:00:00«=+-Z»«=012»«=0349»«=:0»«=0569»«=09»\n', 'd = 00:00:00.«@digit»«@digit»«=0Z+ \n»\n', 'd = 2000-01-01 «= 01»«=0:»:00\n',
        'd = 2000-«=01»1«=-/»01«= T»\n', 'd = 00:00:00.1«@digit»3«@digit»5«@digit»7«=09»9«=01\n»«=09Z»\n', 'd = 2000-01-01T23:59:59.«=09»«=19»3456«=09»«=19»«=19»«=09»«=Z+-»«=01\n»0:00\n',
        'd = «=01234»«=0689»00-02-«=23»«=0189»\n', 'd = 2000-«=01»«@digit»-3«=01»«=\nT»\n']
KEYS = ['«@struct*3» = 1\n', '«=a1"\'.-»«=a1"\'. »«=a1"\'.» = 1\n', '[«@struct*3»]\n', '[[«@struct*3»]]\n', '[«= a"»«=a."\']»«= .a"]»«=a].»\n', '1«=._e-»«=0._e+»«=0._e»«=0= .» = 1\n', '«=+-1»«=.1e»«=1e.» = 1\n', 'a«=.= »«=.= 1»«=.= 1»«=.1 »\n',
        '[[a«=] »«=] »«=#\n]»\n']
STRUCT = ['a = [«=1,]»«=1, #\n»«=1, ]\n»«=,]\n»]\n', 'a = {«=a,} »«== ,\n»«=1,#\n»«=,} »}\n', 'a = {a = 1«=,} »«=b,}\n »}\n', 'a = { a = 1,«=\n #»b = 2«=\n #,»}\n', 'a = 1«= \t#»«=\r\n\0\x7f\x01\t»«=a\r\n»b = 2\n',
          '# «@ascii»«=\n\r»«=\na»', 'a = [ # «=c\r\n»«@ctl»\n 1 ]\n', '«=\n\r a»«=\n\r =»«=\n\r 1»\n']
SEMA = ['[«=ab»]\n[«=ab»«=. »«=ab»]\n[«=ab»]\n', 'a.«=ab» = 1\na.«=ab»«=. »«=ab» = 1\n', '[a.«=ab»]\n[a]\n«=ab»«=. »«=ab» = 1\n', 'a = [{«=ab» = 1}]\n«=[ »[a«=. »«=ab»«=] »]\n', '[[a]]\n[«=[ »a«=. »b«=] »]\n[«=[ »a«=. »b«=] »]\n',
        'a = {b = {c = 1}}\n«=a[»«=.a»«=b.»«=.]» = 1\n', 'a = {«=ab».«=ab» = 1, «=ab»«=. »«=ab» = 2}\n', '[a]\nb.c = 1\n[a.«=bc»«=. »«=cd»]\n', '[[a.b]]\n[a]\n«=bc»«=. »«=cd» = 1\n', '«=ab».b = 1\n[«=ab»]\nc = 1\n',
        '"a" = 1\n«"a"|\'a\'|a|"\\u0061"|b» = 2\n', '[a.b]\n[a]\nb«= .»«=x » = {}\n', '[[a]]\nb = 1\n[a.c]\n[[a]]\n[a.«=bc»]\n', 'a = []\n[[a]]\n', '[a]\n[[a]]\n', '[[a]]\n[a]\n', 'a.b = []\n[[a.b]]\n','[a.b.c]\n[a.b]\n[a]\n[a.«=bc».«=cd»]\n']


FMT = ['«@struct*3»\n', 'a = «@struct*3»\n', 'a = [«@struct*3»]\n', 'a = {«@struct*3»}\n', 'a = [1,«=#\n ,2»«=#\n ,c»«=#\n ]»]\n',
       'a = [«=#\n»«=#c\n»«=\n »1«=, \n»«=,#\n»«=\nc»\n«=\n#»\n]\n', '«=\n# »«=\n# »a = 1«= #\n»«=\n#»\n«=\n#b»\nb = 2\n', '[a]«=#\n »«=#\n »\n«=\n#b»\nb = 2\n«=[\n#»b]\n',
       's = "«=\'"\\a»«=\'"\\na»"\n', "s = '«=\"'\\a»«=\"\\na»'\n", '"«=\'.\\ a»«=\\n".a»" = 1\n', "'«=\".\\ a»'.b = 1\n", '# «@print»«@print»\na = 1 #«@print»«@print»\n', '#«= \t#!:»«= \t#!:»«= \t#!c»\n#«= \t#!:»«= \t!#:»c\n',
       'd = 2000-01-01«=Tt »00:00:00«=Zz+»\n', 'a = """«=\n\\a»«=\n\\ »«=\n\\"»\n"""\r\n', '«=\r\n#»«=\r\n»a = 1\r\n«=\r\n»«=\r\n»b = 2«=\r\n »\n',
       '[b]\nx=1\n«=\n#»[a«=.]»«=b]»«=]\n»\n«=\n#»\n', '[[a]]\n«=b#»«=\n=»«=1\n»\n[a.«=bc»]\n«=\n#»', 'a = [«=\n1»[«=1\n»], {a = 1«=,}»«= \n}»\n]\n', 'aaaa = [1«=, \n»2«=,\n»«=#\n»\n, 3]\nb.c = { x = 1,«= \n#»\n«=#y»«= =»«=1\n»}\n']


FMT2 = ['a«= .»«= b»«=c.b»«=. =»«=2c»\nbb = 2\n', '[a.b.c]\nd«=. =»«=\ne1»«= =»1\n', '[a]\nb = [[[«=1\n»]«=,\n»]«=#\n»]\n[a.b1.c]\ne=1',
        'aa = 1 #«=#b»\nb = [1,«=\n2»] #«=cd»\n\n"c" = 2«= #»\n', '"é" = 1#x\nb = "あ" #c\nc.«="1»é" = 2\n',
        '# «=a:»b\n[[a]] #«=ab»\n#«=cd»\n\n#«=ef»\na.b = 1 #«=gh»\n#ij\n\n#«=kl»\n[[a]]\n#tail\n[a.b]#«=hi»\n#«=no»\n[c]\n#«=z!»',
        'a = {«=\n »#«=ab»\n#«=cd»\n\n#«=ef»\na.b = 1 #«=gh»\n#«=ij»\n,#«=kl»\n#«=mn»\nc=2«=,#»\n#«=op»\n\n#«=qr»\n}#«=st»\n',
        'a = [«=\n »#«=ab»\n#«=cd»\n\n#«=ef»\n1 #«=gh»\n#«=ij»\n,#«=kl»\n#«=mn»\n2«=,#»\n#«=op»\n\n#«=qr»\n]#«=st»\n',
        'a = [{b=[{c«==.»1«= \n#},»\n}«=,\n»],d={«=}e»«=}=»«=1\n»}}\n,«=]{»«=]}»«=\n]»',
        ]


FMTV = [
    '«|#h\n|\n|#h\n\n»a = 1«|#t»\n«|#d\n|\n|#d\n\n»b = [«|#s\n|\n»«|#l\n|#l\n\n»1«|#t\n|\n#k\n»,«|#t\n|\n|\n#d\n»]«|#t»\n',
    'b = [«|#s\n|\n#d\n\n»1«,|,#t\n|\n,\n|#k\n,|, #t\n#l\n|,\n\n#d\n\n»2«|,|#t\n|#t\n,|#t\n#u\n|,#t\n#d\n»]\n',
    'b = {«|#s\n|\n#d\n\n»a=1«,|,#t\n|\n,\n|#k\n,|, #t\n#l\n|,\n\n#d\n\n»c=2«|,|#t\n|#t\n,|#t\n#u\n|,#t\n#d\n»}\n',
    '«|#a\n|#a\n\n|\n»«[a]|[[a]]|x=1»«|#b»\n«|#c\n|#c\n\n|\n»«|y=2|y.z=3#t»\n«|#d\n|\n#d\n\n|\n»«[a.b]|[b]|[[b]]|[a.b.c]»«|#e\n#f»\n«|#g\n|\n»',
    '«[a]|[[a]]|[b]|»\n«|a=1|a.b=2»\n«[a]|[[a]]|[b]|[a.c]|[b.c.d]»\n«|d=1|d.b=2»\n«[[a]]|[b]|[a.c]|[[a.e]]|[b.c]»\n#x',
    'a = «1|[1]|[ ]|{}|{ }|{b=1}|{b=1,}|{b={c=1}}|[[]]|[{}]|[[1],[2,],]|[{b=1},{b=[1,\n2]}]|\'a\'|"""x\n"""|\'\'\'\ny\'\'\'|1979-05-27T00:00:00Z»«|#c»\nb = «1|[1]|{b=1}|[[1],[2]]|\'\'»«|  #d»\n',
]

# user-perceived characters of several code points, and of several bytes
UCH = 'é|e\u0301|न\u093f|👍🏽|👩‍💻|x'
UNI = [t.replace('§', UCH) for t in [
    'a = "«§»«§»" # «§»\n', '# «§»\n«=\n »«§» = 1\n', '"«§»"«=\n\r= .»«= "»b = "«§»\n',
    "a = '''«§»«=\n'»«§»\n«§»'''«=\r\n ,»«=\n#»", 'a = """\\«=\n "»«§»\n"""«= #»«=a\n»b = 1\n',
    '[«§».«§»«=]\n »«=]\n»', 'a = [«§»,"«§»",«=1\n»]«§»\n', 'a = «=1"[»«=-:"»«§»«=1\n»\n']]
EOLS = ['a = 1«=\r\n#»«=\r\n»«=\r\nb»«=\r\n=»1', '«=\r\n »«=\r\n\t»«=\r\n#»«=\r\nx»', 'a = """«=\r\n»«=\r\n»«=\r\n»"""«=\r\n»b=1\r\n']

SEMA2 = [
    '«[a]|[[a]]|[a.b]|[[a.b]]|a.b.c = 1|a = 1|a = {}|a = []»\n«[a]|[[a]]|[a.b]|[[a.b]]|[a.b.c]|[b]»\n«[a]|[[a]]|[a.b]|[[a.b]]|b.c = 1|[a.b.c]|[[a.b.c]]|»\n',
    '[x]\n«a = 1|a.b = 1|a.b.c = 1|a = {b = 1}|a = [{b = 1}]»\n«a = 1|a.b = 2|a.c = 1|a.b.d = 1|a.b.c = 2|»\n«[x]|[x.a]|[x.a.b]|[[x.a]]|[y]|[x.a.c]|x.a.d = 1»\nz = 1\n',
    'a = {«b = 1|b.c = 1|b = {c = 1}|b = {}|b = [{c = 1}]|b.c.d = 1», «b = 2|b.c = 2|b.d = 2|c = 1|b.c.e = 1»}\n«[a]|[a.b]|[[a]]|a.d = 1|[a.c]|»\n',
    '[[a]]\n«b = 1|b.c = 1|[a.b]|[[a.b]]|[a.b.c]»\n«[a.b]|[[a.b]]|[a.b.c]|[[a]]|[a]|[[a.b.c]]|»\nc = 1\n«[[a]]|[a.b]|[[a.b]]|[a.b.c]|»\nd = 1\n',
]
SEMA2 += [
    '[[a]]\n«[b]|[[b]]|b = 1|[a.b]|[[a.b]]»\n«[a.c]|[[a.c]]|[a]|[a.b.c]|[b.c]»\nd = 1\n',
    '[[«=ab»]]\n[[«=ab»«=. »«= ab»]]\n[«=ab».«=cb»«=. »«= cb»]\ne = 1\n',
]
SEMA3 = [
    '[«=ab».«=ab»]\n«=ab» = 1\n[«=ab».«=ab».«=ab»]\n«=ab» = 2\n[«=ab»]\n',
    '«[a]|[[a]]|[b]|[a.b]|[[a.b]]|[a.b.c]|»\n«b = 1|b.c = 2|c = [{}]|»\n«[a]|[[a]]|[b]|[a.b]|[[a.b]]|[a.b.c]|»\n«b = 1|b.c = 2|c = [{}]|»\n«[a]|[[a]]|[b]|[a.b]|[[a.b]]|[a.b.c]|»\n«b = 1|b.c = 2|c = [{}]|»\n',
]

# deeper documents for the thorough tier
DEEP = ['«@struct*5»', '«@any*3»', 'a = «@struct*4»', '[«@struct*4»]\n', 'k = [«@struct*4»]\n', 'k = {«@struct*4»}\n', 'a = 1«@any*3»', 's = """«@any*4»"""\n', 's = "«@any*3»"\n',
        'a = [{«@struct*4»}]\n', '[a]\n«@struct*4»\n[b]\n', 'a = 1 «@struct*4»\nb = 2\n', '«@bare*3» = «=12.e_+»«=12.e_+:-»«=12.e_+:-»«=12.e_+:-»\n', '«@struct*2»=«@struct*2»\n«@struct»\n']

# comments around one construct at a time
FMTC = [
    '«|#h\n|\n|#h\n\n»a = 1«|#t»\n«|#d\n|\n#d\n\n»b = 2«|#e»',
    'b = [«|#s\n|\n#d\n\n»1«,|,#t\n|\n#k\n,|, #t\n#l\n|,\n\n#d\n\n»2«|,|#t\n|#t\n,|,#t\n#d\n»]«|#z»\n',
    'b = {«|#s\n|\n#d\n\n»a=1«,|,#t\n|\n#k\n,|, #t\n#l\n|,\n\n#d\n\n»c=2«|,|#t\n|#t\n,|,#t\n#d\n»}«|#z»\n',
    '«|#a\n|#a\n\n»«[a]|[[a]]|x=1»«|#b»\n«|#c\n|\n#c\n»«[a.b]|y=2»«|#d»\n«|#e\n\n#f»\n',
    'a.b = [«|#1\n»[«|#2\n»1«|#3\n»,«|#4\n»],«|#5\n»{«|#6\n»c=1«|#7\n»}«|#8\n»]\n',
    '[a]\n«|#1\n|\n#1\n\n|#1\n\n#2\n»«|b=1\n»«|#3\n|\n#3\n\n#4\n»«[b]|[[b]]|[a.c]|»«|#5»\n«|#6»',
    '«|#1\n\n|\n»«#:schema x|#!tombi|#:tombi toml-version="v1.0.0"|# x»\n«|\n|#2\n»«|a=1|[a]»«|#3»\n',
    'a = """x«#|\n#y»"""«|#z»\nb = \'#«x|#»\'«|# y»\n"#" = 1«|#q»\n',
]

FMTD = ['«#:tombi |# tombi: |#:schema |# tombi:|#:tombi»«=a "#»«=a= »«=1 "=»«=1#»\na=1\n', '[a]\n# tombi: «=a "#»«=a= »«=1 "=»«=1#»\n\nb = 1 #tombi:«=a "#»«=a= »«=1 "=»«=1#»\n']

# one comment text, with control characters, in every position a comment can take
CC = '«=\x01\x1f\x7f\0\ta»'
CMT = [
    '«#|#:|#!»' + CC + '\n«|\n»a = 1 «|#»\n',
    '«|a = 1\n»«|\n»# ' + CC + '\n«|\n»«a.b = 2|b = 1|[b]|[[b]]|»\n',
    'b = 1 #' + CC + '\n«|\n»[t] #' + CC + '\n«|\n»x = [1] #' + CC + '\n',
    '[t]\n«|a = 1\n»«|\n»#' + CC + '\n«|\n»«b = 1\n|[c]\n||#x\n»',
    'a = [«|\n|\n\n»#' + CC + '\n«|\n»«1|1,|1,\n»«|#x»\n]\n',
    'a = [1«|#x»\n«|\n»#' + CC + '\n«|\n»«,|,2|]\nb = [»«|#x»\n]\n',
    'a = [1,«|\n|\n\n»#' + CC + '\n«|\n»«2|]\nb = [|2, 3»«|#x»\n]#' + CC + '\n',
    'a = {«|\n|\n\n»#' + CC + '\n«|\n»«b=1|b=1,|b=1,\n»«|#x»\n}\n',
    'a = {b=1«|#x»\n«|\n»#' + CC + '\n«|\n»«,|,c=2|}\nb = {»«|#x»\n}\n',
    'a = {b=1,«|\n|\n\n»#' + CC + '\n«|\n»«c=2|}\nb = {|c=2, d=3»«|#x»\n}#' + CC + '\n',
]
# more than 64 tokens before the symbolic part (the parser keeps per-token bits in 64-bit words)
PRE = {n: 'a = [%s]\n' % ', '.join('1' * 1 for _ in range(n)) for n in (18, 19, 20, 21)}
LONG = [PRE[n] + t for n in (18, 19, 20, 21) for t in ('b«=. =»«=1c»«=. =»«=1d»«= =»2\n', '[b«=. ]»«=c]»«=]\n»\nd = «=1-»«=.0»«=.1»\n')] + \
       ['[' * 30 + '1' + ']' * 30 + '\n', 'a = ' + '[' * 31 + '«=1]»«=],»' + ']' * 31 + '«=\n] »', '.'.join('abcdefgh' * 4) + '«=.= »«=1b»«== .»«=1.»2\n']

# comments and blank lines around commas
FMTK = [
    'a = [1«|#t»\n«|\n»«|#k\n»«|\n»«|#l\n»«|\n»,«|#m»\n«|\n»«|#n\n»«|\n»«|#o\n|2»]\n',
    'a = {b=1«|#t»\n«|\n»«|#k\n»«|\n»«|#l\n»«|\n»,«|#m»\n«|\n»«|#n\n»«|\n»«|#o\n|c=2»}\n',
]

# ---- small text components (htext)
VCH = '«=a01_>»'
VERS = [
    ('«=ab01_->=~»«=a019_-<=^»«=ab0»«|1»', '«=ab01_->=~»«=a019_-<=^»«=ab0»«|1»'),
    ('«a|»«0|00|1|10|010|9|99999999999999999999|100000000000000000000|18446744073709551616|»«-|_|>=|»«0|00|1|2|02|b»', '«a|»«0|00|1|10|010|9|99999999999999999999|100000000000000000000|18446744073709551616|»«-|_|>=|»«0|00|1|2|02|b»'),
    ('«a|é|»«>=|==|===|=|~=|~>|~|!=|!|<»«1|a|»', '«a|é|»«>=|==|===|=|~=|~>|~|!=|!|<»«1|a|»'),
    ('«a|b|ab|é|aé»«=_-»«1|é|»', '«a|b|ab|é|aé»«=_-.»«1|é|»'),
    ('x«@digit*2»«=a-»«@digit»', 'x«@digit*2»«=a_»«@digit»'),
]
VERS3 = [
    ('«=a0>_»«=a01>-»', '«=a0>_»«=a01>-»', '«=a0>_»«=a01>-»'),
    ('«0|00|1|01|a|>=|_|-|!|~>|99999999999999999999|18446744073709551617»«1|0|a|>|-|»', '«0|00|1|01|a|>=|_|-|!|~>|99999999999999999999|18446744073709551617»«1|0|a|>|-|»', '«0|00|1|01|a|>=|_|-|!|~>|99999999999999999999|18446744073709551617»«1|0|a|>|-|»'),
    ('a«0|00|1|01|»«-|_|b»«0|00|1|»', 'a«0|00|1|01|»«-|_|b»«0|00|1|»', 'a«0|00|1|01|»«-|_|b»«0|00|1|»'),
]
LSPT = UNI + EOLS + [
    '«§»«=a\n\r»«§»«=\n b»«§»'.replace('§', UCH), 'a«=\r\n»«=\r\n»«=\r\nb»«=\r\n»', '«@any*3»', '«é|🎉|ab|\t»\r\n«👨‍👩‍👧|é|x»«👍🏽|»\n«|a|\r»',
]
JSONT = [
    '«@ascii*3»', '«=[]{},:»«=[]{},:1"»«=[]{},:1"»«=[]{},:1 »', '"«@ascii»«@ascii»', '"\\«@print»«@print»"', '"\\u«=0dD»«=08aefF»«@hex*2»"',
    '"\\u«d8|D8|DB|db|dc|DF|00»«00|ff|41»«\\u|u|\\|»«dc|dC|DF|d8|00»«00|ff|41»"', '«=-+019.e»«=01.eE»«=0.eE-»«=05+»', '«-|»«0|1|10|01|00|»«.|e|E|.0|.5|»«e|E|+|-|»«+|-|»«0|3|05|»',
    '«9007199254740992|9007199254740993|9007199254740995|9223372036854775807|9223372036854775806|-9223372036854775807|4503599627370497|-9007199254740993|0|-0|1e3|1E2|12.5e1|2.50|-0.0|0.1|1e-3|100000000000000000»',
    '{"a":«1|[]|{}|"x"|null|true|», «"b"|"a"|b|»«:|,|»«2|{"c":[1]}|false»«}|,}|,,}|»', '[«1|,|»«,|]|»«2|,|»«,|]|»«]|,]|»', '«\t| |\n|\r\n|\x0b|\x0c|\ufeff|\u00a0|»{«\t|\n| |\r\n|»"k«é|🎉|\t|\\t|»"«\n| |»:«\r\n| |»[«\n|»1«\n|»]«\n|»}«\n|\t|x|,|»',
    '«t|tr|tru|true|truex|True|f|fals|false|falsee|n|nul|null|nulll|NaN|Infinity|-Infinity|undefined|//|/**/|#»«| |1|,»', '{"«=ab»":1,"«=ab»":2,"«a|\\u0061|b»":3}', '"«@ctl»"', '[' * 6 + '«=[1]»' + '«=]1,»' * 3 + ']' * 4,
]
ENCT = ['«@ascii*2»', '«é|🎉|e\u0301|\u0080|\u009f|\u00a0|\ufeff|\u2028|${|"|\\|\n|»«@ascii»«|}|a»', '«=$a»«={b»«=} c»', '«=abz019-_.+ "\'\\»«=abz019-_.+ "\'\\»«=abz019-_.+»']

# multi-byte characters next to the characters that introduce a comment
CMT += ['#«§|a|!|#|:| |»«§|!| |:»«§|»\n«a = 1 »#«§|!|#| »«§|\t»'.replace('§', 'é|あ|👍🏽').replace('«a = 1 »', 'a = 1 '), 'a = [#«é|あ|a»«é|x|»\n1«,| »#«é|!é|a| é»\n#«é|a|»\n]#«é|#é|é #»\n']


def crlf(t):
    """The template with CRLF line ends (single-byte places keep their alphabets)."""
    import re
    return ''.join(p if p.startswith('«=') else p.replace('\n', '\r\n') for p in re.split('(«[^»]*»)', t))


CRLF = [crlf(t) for t in FMTC + FMTK + FMTD + FMT2]

# ---- serde (hser)
SV = '«1|"x"|[]|{}|[1]|[{}]|{x=1}|[{x=1}]|[{x={}}]|[{x=[{}]}]|[[]]|[[{}]]|[1,{}]|[{},1]|[[],{}]|{x={}}|{x=[]}|{x=[{}]}|{x={y=[{z=1}]}}|{x=1,y={}}»'
SERT = [
    'a = "«@ascii»«@ascii»"', "a = '«@print»«@print»'", 'a = "\\u00«@hex*2»«\\\\|\\"|é|🎉|»"', 'a = """«\n\n|"|""|\\\\|»«\\r|\\n|\n|\r\n|»x"""',
    '"«@ascii»«@ascii»" = 1', '"«|a|é|1|-|a b|.|\\u0000|true|1.5|${x}|#»"."«|a|é|a b|.|\\"|\\\\|\'»" = 1', '"«|a|é|1|-|a b|.|\\u0000|]|"] |\'»"."«|a|é|a b|.|\\"|\\\\|\'»".b = [{}, {"«|a| |\\n»" = 1}]'.replace('|"] |', '|'),
    'a = «-|+|»«0|1|9|9223372036854775807|123456789|0x1F|1_0»', 'a = -9223372036854775808', 'a = «-|+|»«0|1|10|3|9007199254740993|1e16|inf|nan|5e-324|1.7976931348623157e308|123456789012345680000.0|1e300|0.1»«.0|.5|e5|e-7|»',
    'a = 19«@digit»9-0«=12»-2«=78»«T| |»«00|23|07»:«00|59»:«00|59»«|.5|.000000001|.123456»«Z|+00:00|-07:30|+23:59|»', 'a = «0001|9999|2000»-02-«28|29|01»', 'a = «00|23|07»:«00|59»:«00|59»«|.5|.000000001|.999»',
    'a = ' + SV, 'a = ' + SV + '\nb = ' + SV, 'a = [' + SV + ', ' + SV + ']', 'a.b = ' + SV + '\na.c = ' + SV, 'a = [{b = ' + SV + ', c = ' + SV + '}, {}]', 'a = {b = [{c = ' + SV + '}, {d = ' + SV + '}]}', 'a = [[' + SV + '], ' + SV + ']',
    'a = [{}, {b = ' + SV + '}]\nc = ' + SV + '\nd = «true|false»', '',
]

# refactorings: dotted keys <-> inline tables
ACTT = [
    'a.«b|"b c"|\'b\'|"é"|""|"\\""|\'"\'|"a.b"|1» = 1\n',
    '«"a b"|\'a\'|"é"|""|"a.b"|1|é».b = 1\nc = 2\n',
    'a.b.c = 1\na.b.«=cd» = 2\na.«=bf».e = 3\n',
    '[x]\na«=.b».b«.c|. c| .c|.c.d|» = «1|[1]|{c=1}|"""\n"""|1 # c|[ # c\n1]|{c=[1,2]}|[{c=1}]»\n',
    'a = {«b|"b c"|b.c|b.c.d|"b.c"|""» = «1|{}|{d=1}|[1,2]|{d.e=1}»«,|, b.x=2|,c=1| |»}\nz = 1\n',
    '[«x|y.z|[x]|"é"»]\na = { «b|b.c|"é"» «=="» = 1«}|\n}|,\n}|# c\n}|}#c|}  # c»\n',
    'x = [{a.«b|b.c» = 1}, {a = {b = «1|{c=1}|[{c=1}]»}}]\n',
    '[[x]]\na.b = «1|{c=1}»\n[[x]]\na = {b«=.c» = 1}\n[x.y]\nk«.l|.m|.l.m» = {«=lm».n = 1}\n',
    'é.«é|"👩‍💻"».b = «"é"|1»\na.b = {«é|"👍🏽"» = «"é"|1»}\n',
    'a«.b|» = { c = 1 }\na«.d|.b.e|» = «{ e = 2 }|3»\n',
    'a   .   b   =   «1|{ c  .  d = 1 }|{  }»  # c\n',
]

# (document, the conversion that has to be offered)
OFFT = [
    ('«|x = 1\n|# é\n[t]\n|[[t]]\n»«a|"a b"|é».«b|\'\'» = «1|"é"|[1]|{c = 1}|\'\'\'x\'\'\'»«| # c»\n«|[z]\n»', 1),
    ('«|x = 1\n|# é\n[t]\n|[[t]]\n»«a|"a b"|é» = {«b|\'\'» = «1|"é"|[1]|1.5|\'x\'»}«| # c»\n«|[z]\n»', 2),
]

# completion: (schema, before, after, path, 0 keys / 1 values, partial)
CS = '{"type":"object"«|,"additionalProperties":false|,"additionalProperties":{"type":"integer"}»,"properties":{"a":{"type":"integer","enum":[1,-2]},"b":{"type":"string","enum":["x","y z","é"]},"c d":{"type":"object","properties":{"d":{"type":"boolean"},"e.f":{"type":"number"},"n":{"type":"object","properties":{"o":{"const":3}}}}},"r":{"$ref":"#/$defs/R"},"t":{"type":"array","items":{"type":"object","properties":{"p":{"type":"boolean"},"q":{"const":"k"}}}},"l":{"type":"array","items":{"enum":[1,"x",true]}},"v":{"enum":[1,1.5,true,"s",-3,"q\'"]},"m":{"anyOf":[{"type":"boolean"},{"type":"string","enum":["u"]}]},"k":{"allOf":[{"type":"object","properties":{"x":{"type":"integer"}}},{"type":"object","properties":{"y":{"type":"integer"}}}]},"z":{"type":"string","default":"dd","examples":["ex1","ex2"]}},"$defs":{"R":{"type":"object","properties":{"q":{"const":true},"w":{"type":"boolean"}}}}}'
CPRE = '«|a = 1\n|b = "x" # c\n»«|"c d".d = true\n|\nv = 1\n»'
COMPT = [
    (CS, CPRE, '«|\n|\n\nz = "dd"\n|\n[r]\n»', '', 0, 0),
    (CS, CPRE + '[«"c d"| "c d" |\'c d\'»]«\n| # é\n»«|d = true\n|"e.f" = 1\n»', '«|\n|\n[r]\n|\nn.o = 3»', 'c d', 0, 0),
    (CS, CPRE + '"c d".', '«|\n|\n[r]\n»', 'c d', 0, 0),
    (CS, CPRE + '"c d".n.', '«|\n|\n[r]\n»', 'c d.n', 0, 0),
    (CS, '«|a = 1\n»"c d" = {«| |d = true, |n.o = 3,»', '«}| }\n»', 'c d', 0, 0),
    (CS, '[r]\n«|q = true\n|w = false\n»', '«|\n|\n[t]\n»', 'r', 0, 0),
    (CS, '«[[t]]\n|[[t]]\np = true\n|# x\n[[t]]\nq = "k"\n»', '«|\n|\n[r]\n»', 't.0', 0, 0),
    (CS, '[[t]]\np = true\n[[t]]\n«|q = "k"\n»', '«|\n|\n[r]\n|\n[[t]]\n»', 't.1', 0, 0),
    (CS, 't = [{', '«}]|}]\n»', 't.0', 0, 0),
    (CS, '[k]\n«|x = 1\n|y = 2\n»', '«|\n»', 'k', 0, 0),
    (CS, 'k = {«|x = 1, |y = 2, »', '}', 'k', 0, 0),
    (CS, 'k.«|x = 1\nk.»', '\n', 'k', 0, 0),
]
for k, ext in (('a', ''), ('b', ''), ('v', ''), ('m', ''), ('z', '')):
    COMPT.append((CS, '«|r.w = true\n|# é\n»' + k + '« =| = |=»', '«|\n|\n[r]\n|\nl = []\n»', k, 1, 0))
COMPT += [
    (CS, '«r.w = |[r]\nw = |r.w =»', '«|\n»', 'r.w', 1, 0),
    (CS, 'l = [«|1, |1,\n»', '«]|]\n»', 'l.0', 1, 1),
    (CS, 'b = "', '"', 'b', 1, 1),
    (CS, "b = '", "'", 'b', 1, 1),
]

# hover: (document, schema)
HOVT = [
    ('«a|"a b"|é|\'x\'»«| . b|.b»«=:=»«= | = »'.replace('«=:=»', ' =').replace('«= | = »', ' ') + '«1|1.5|"x"|true|1979-05-27|[1, [2, "é"]]|{c = 1, d.e = []}|""" é\n x"""|07:32:00» # c\n', ''),
    ('[a«|.b»]\nc = 1\n[[d]]\ne.f = «"é"|[{g = 1}, {g = 2}]»\n[[d]]\n«h = 1|[d.i]\nj = 1|[[d.k]]\nl = 1\n[[d.k]]\nm = true»\n', ''),
    ('# é\n[[a.b]]\nc = {d = «1|[\n1, # x\n2,\n]»}\n[[a.b]]\n[a.b.e]\nf = "👩‍💻" \n', ''),
]
HS = '{"type":"object","properties":{"a":{"title":"T a","description":"D a","type":"integer"},"b":{"type":"object","title":"T b","properties":{"c":{"$ref":"#/$defs/R"},"d":{"type":"array","title":"T d","items":{"type":"object","title":"T d0","properties":{"e":{"description":"D e","type":"string"}}}}}}},"$defs":{"R":{"title":"T R","description":"D R"«|,"type":"boolean"»}}}'
HOVT += [('«|# x\n»a = «1|"x"»\n«b.c = true|[b]\nc = true # é|b = {c = 1}»\n', HS), ('[[b.d]]\ne = "é"\n[[b.d]]\n«e = "y"|f = 1»\n', HS), ('b = {d = [{«e = "x"|»}]}\n', HS)]

# schema-driven order (C15): (mode, schema, document, paths of the directives in it)
KO = '"x-tombi-table-keys-order"'
VO = '"x-tombi-array-values-order"'
VB = '"x-tombi-array-values-order-by"'
ORD = '"«ascending|descending|version-sort»"'
OQ = '"«ascending|descending|version-sort»"'
def ktab(o, rest=''):
    return '{"type":"object",%s:%s%s}' % (KO, o, rest)
def karr(o, items, rest=''):
    return '{"type":"object","properties":{"a":{"type":"array",%s:%s,"items":%s%s}}}' % (VO, o, items, rest)
GRP = '"properties":{"c":{},"b b":{}},"patternProperties":{"^x":{"type":"object",%s:"descending"}},"additionalProperties":{"type":"object",%s:"ascending"}' % (KO, KO)
KB = '{"type":"object","properties":{"k":{"const":1}},"required":["k"],%s:"descending"}' % KO
KC = '{"type":"object","properties":{"k":{"const":2}},"required":["k"],%s:"ascending"}' % KO
DT = '# tombi: format.rules.table-keys-order«.disabled = true| = "ascending"| = "descending"| = "version-sort"»'
DA = '# tombi: format.rules.array-values-order«.disabled = true| = "ascending"| = "descending"| = "version-sort"»'
TC = '«,| # v\n ,|, # v\n|\n # l\n ,»'
SORTT = [
    # keys
    (1, ktab(ORD), '«=ab1»«|0|1|_» = 1\n«=abA-»«|0|9» = 2\n«"b a"|\'a\'|"\\u0061"|"é"|1» = 3\n', ''),
    (1, ktab(ORD), '«a10|a9|a-9|a»«= ._»= 1\n'.replace('«= ._»', ' ') + '«a1|a09|a_b|b» = 2\n«a010|a99999999999999999999|1|"a "» = 3\n', ''),
    (3, ktab(ORD), '«|# l1\n»«b|c» = 1«| # t1»\n«|# l2\n»«a|d» = 2«| # t2»\n«\n# g\n\n|»[«z|x»]«| # h»\n«# i\n|y = 1\n|»«|# j\n»[w]\n', ''),
    (2, ktab(ORD), '«b|c» = 1\n«a|d» = 2«| # t2»\n\n# d\n\n«g|f» = 1\n«e|h» = 1 # t\n«|\n# e\n»[«z|x»]\nb = 1\n\n# f\n\na = 1\n«|\n# g\n\n»[w]\n', ''),
    (1, ktab(ORD, ',"additionalProperties":' + ktab('"«ascending|descending»"')), '«b.x|a.z|b.y» = 1\n«a.y|b.w|a.a» = 2\n«a.b|b.z|c» = 3\n[«d|e»«|.x»]\n«[e.y]\n|b = 1\na = 2\n|»[«d|e».«a|b»]\n', ''),
    (1, ktab(ORD, ',"additionalProperties":{"type":"object","additionalProperties":%s}' % ktab('"«ascending|descending»"')), '[d.«x|y».«b|c»]\n[e]\n«[d.x.a]\n|[d.y]\nr = 1\ns = 2\n|»[d«|.z»]\nq = 1\n[d.y.«a|d»]\n', ''),
    (1, ktab('"«schema|descending»"', ',"properties":{"c":{},"b b":{},"a":%s}' % ktab('"«schema|ascending»"', ',"properties":{"z":{},"y":{}}')), '«z = 1\n|c = 1\n|»«a.x = 1\na.z = 1\n|a.y = 1\na.z = 1\n|"b b" = 1\n»c«| .d» = 2\n'.replace('| .d', '|.d') + '[«a|"b b"|d»]\n«y = 1\nz = 1\nx = 1\n|»[«e|f|"b b"».x]\n', ''),
    (1, ktab('{"properties":"«schema|descending»","patternProperties":%s,"additionalProperties":"«ascending|descending»"}' % OQ, ',' + GRP), '«z = 1\n|x10 = 1\n|»«"b b" = 1\n|x9 = 1\n|»«c = 1\n|y = 1\n|»«x09|w|"b"» = 1\n', ''),
    (1, ktab('{"additionalProperties":"«ascending|descending»","properties":"«schema|ascending»","patternProperties":"version-sort"}', ',' + GRP), '«x1.b = 1\nz.b = 1\nx1.c = 1\nz.a = 1\n|»«"b b".y = 1\n|»[x2.«a|b»]\n[«z|c».«d|e»]\n[x2.c]\n«[z.c]\n|»', ''),
    (1, ktab(ORD, ',"properties":{"b":{"type":"array","items":%s}}' % ktab('"«ascending|descending»"')), '[[b]]\n«x|z» = 1\ny = 2\n«[b.c]\n[b.d]\n|[b.e]\n»[[b]]\n«x = 1\nq = 1\n|»«[b.d]\n[b.c]\n|»[a]\n«|[b.c]\n»', ''),
    (1, ktab(ORD, ',"properties":{"b":{"type":"array","items":%s}}' % ktab('"«ascending|descending»"')), 'b = [{«y|x|w» = 1, «z|"é"|\'v\'» = 2«|, u.b = 1, u.a = 1»«|,»}«|, {z = 1, a = 2}»]\na = {d = 1, c = 2}\n', ''),
    (3, ktab(ORD, ',"additionalProperties":' + ktab('"«ascending|descending»"')), 't = {\n«|# l\n»«b|c» = 1, # t\n«|# m\n»a = 2«| # u»\n«d = 3, # v\n|»}\n', ''),
    (0, ktab(ORD, ',"additionalProperties":' + ktab('"«ascending|descending»"')), 't = {«b|d» = 1' + TC + ' a = 1«| # w\n|\n#x\n»' + '«|,|# y\n,»«| c = 1»}\n', ''),
    # combinators
    (1, '{"«oneOf|anyOf»":[%s,%s]}' % (KB, KC), '«a|l» = 1\nk = «1|2»\n«z|b» = 1\n[«m|o».b]\n[n«|.c»]\n', ''),
    (1, '{"type":"object","properties":{"t":{"«oneOf|anyOf»":[%s,%s]}}}' % (KB, KC), '«[t]\na = 1\nk = 1\nz = 1\n|[t]\na = 1\nk = 2\nb = 1\n[t.d]\n[t.c]\n|t = {a = 1, k = 1, z = 1}\n|t.b = 1\nt.k = 2\nt.a = 1\n»', ''),
    (1, '{"type":"object","properties":{"t":{"type":"array","items":{"«oneOf|anyOf»":[%s,%s]}}}}' % (KB, KC), '[[t]]\na = 1\nk = «1|2»\nz = 1\n«[t.b]\n|»[t.a]\n[[t]]\n«b = 1\na = 1\n|»k = «1|2»\nl = 1\n', ''),
    (1, '{«"$ref":"#/$defs/o"|"type":"object","properties":{"t":{"$ref":"#/$defs/o"}}»,"$defs":{"o":%s}}' % ktab('"«ascending|descending»"'), 't.b = 1\nt.«a|c» = 1\n«z|a» = 1\n[t.«f|d»]\n[t.e]\n[«y|b»]\n', ''),
    # values
    (1, karr(ORD, '{}'), 'a = [«3|0x1|-1»«, 1|, 0b1|,\n +2|»«, 0o1|, 10»«|, 2|, 1.5»«|,»]\n', ''),
    (1, karr(ORD, '{}'), 'a = [«"b"|\'a\'|"a10"»«, "a9"|, """a"""|, \'\'\'a1\'\'\'»«, "\\u0061"|, "é"|, "a-1"»«|, "B"|, 1»]\n', ''),
    (1, karr(ORD, '{}'), 'a = [«1979-05-27T07:32:00Z|1979-05-27 00:32:00.5-07:00|1979-12-31T23:59:60-00:01»«, 1979-05-27T00:32:00-07:00|, 1980-01-01T00:00:00+00:30|, 1979-05-27t07:32z»«, 2000-02-29T12:00:00+23:59|, 2000-03-01T00:00:00Z|, 0001-01-01T00:00:00Z|, 1979-05-27»]\n', ''),
    (1, karr(ORD, '{}'), 'a = [«1979-05-27T07:32:00|1979-05-27 07:32:00.50»«, 1979-05-27 07:31:59.999|, 1979-05-27T07:32»«|, 2000-02-29 07:32:00.5|, 1979-05-27»]\n', ''),
    (1, karr(ORD, '{}'), 'a = [«07:32:00|07:32:00.50|1979-05-27»«, 07:31:59.999|, 07:32|, 1979-05-26»«|, 00:00:00.5|, 0001-01-01»]\n', ''),
    (1, karr(ORD, '{}'), 'a = [true, «false|true»«, true|, false|»«|, 1»]\n', ''),
    (1, karr(ORD, '{"type":"object",%s:"n"}' % VB), 'a = [{«n = 2, v = 1|v.w = 1|"n" = 1|n = "x"»}, {«n = 1, v = 2|v = 3, n = 2|n = "b"»}«|, {\'n\' = 1, v = 4}|, {n = 3, n2 = 1}»]\n', ''),
    (1, karr('{"«oneOf|anyOf»":["version-sort","«ascending|descending»"]}', '{"oneOf":[{"type":"string"},{"type":"integer"}]}'), 'a = [«1|"a10"|true», "a1"«, 2|, "a9"|»«|, 0|, "a01"»]\n', ''),
    (1, karr('{"oneOf":["version-sort","«ascending|descending»"]}', '{"oneOf":[{"type":"string"},{"type":"object",%s:"n"}]}' % VB), 'a = [«"a"|{n = 1}», {n = "y"}«, {n = "z", v = 1}|, "b"»«|, {n = "z"}|, "a"»]\n', ''),
    (1, '{"type":"object","properties":{"a":{"type":"array","items":{"type":"array",%s:%s,"items":{"type":"integer"}}}}}' % (VO, ORD), 'a = [[3,«1|4»],[],[«2|3»,0,1]]\n', ''),
    (1, '{"type":"object","additionalProperties":{"type":"object","properties":{"a":{"type":"array",%s:%s}}}}' % (VO, ORD), 'b.a = [2, «1|3»]\n[c]\na = [«2|0», 1]\n[d]\nb = [2, 1]\n[e]\nb = {a = [2, 1]}\n', ''),
    (3, karr(ORD, '{}'), 'a = [\n«|# l3\n»«3|0»,«| # t3»\n«|# l1\n»1,«| # t1»\n«|# l2\n»2,«| # t2»\n«|\n# d\n»]\n', ''),
    (0, karr(ORD, '{}'), 'a = [«3|0»' + TC + ' 1' + TC + ' 2«| # w\n|\n#x\n»«|,|# y\n,»]\n', ''),
    (2, karr(ORD, '{}'), 'a = [\n«3|1»,\n2,\n\n# d\n\n«9|7»,«| # 7»\n8,\n]\n', ''),
    # directives
    (1, '', DT + '\n\nb = 1\n«c|a» = 3\n«a10|a2» = 1\na9 = 1\n«[z]\ny = 1\nx = 1\n[x]\n|[b2]\n[a3]\n»', ''),
    (1, '«|' + ktab('"ascending"', ',"additionalProperties":' + ktab('"ascending"')) + '»', 's = 1\n' + DT + '\n[t]\nb = 1\n«c|a» = 3\n[s2]\nb = 1\n[t.«z|y»]\n[t.x]\n«|[r]\nb = 1\na = 1\n»', '.t'),
    (1, '«|' + ktab('"ascending"', ',"additionalProperties":' + ktab('"ascending"')) + '»', '«' + DT[:DT.index('«')] + ' = "descending"\nt = {b = 1, c = 1, a = 2}|t = {b = 1, c = 1, a = 2} # tombi: format.rules.table-keys-order = "version-sort"|' + DT[:DT.index('«')] + '.disabled = true\nt = {b = 1, c = 1, a = 2}»\ns = {c = 1, a = 2}\n', '.t'),
    (1, '«|' + karr('"ascending"', '{}') + '»', DA + '\na = [«3|0», 1, 2]\nb = [2, 1]\n', '.a'),
    (1, '«|' + karr('"ascending"', '{}') + '»', 'a = [«3|0», 1, 2] ' + DA + '\nb = [2, 1]\n', '.a'),
    (1, '«|' + karr('"ascending"', '{}') + '»', 'a = [\n' + DA + '\n\n«3|0», 1, 2]\nb = [2, 1]\n', '.a'),
    (1, '', '«' + DT[:DT.index('«')] + ' = "ascending"|' + DT[:DT.index('«')] + ' = "descending"»\n\n[b]\n' + DT + '\n[a]\nx = 1\n«y|w» = 1\n[a.x2]\n[a.y2]\n', '\n.a'),
    (1, '', '[[a]]\n' + DT + '\n[a.b]\nx = 1\n«y|w» = 1\n[[a]]\n[a.b]\nx = 1\ny = 1\n', '.a[0].b'),
    (1, '', DT + '\n[[a]]\nx = 1\n«y|w» = 1\n[[a]]\nx = 1\ny = 1\n', '.a[0]'),
    (1, '', '[a]\n' + DA + '\nx = [1, «2|0»]\n' + DA + '\ny = [«2|0», 1]\nz = [1, 2, 1]\n', '.a.x\n.a.y'),
]

# lint rules: levels of key-empty, dotted-keys-out-of-order, tables-out-of-order; schema that allows empty keys; document
def nq(r):
    return '# tombi: lint.rules.%s.disabled = true' % r
NQD, NQT, NQE = nq('dotted-keys-out-of-order'), nq('tables-out-of-order'), nq('key-empty')
RULET = [
    ((0, 0, 0, 0), '«a|"a"|b».x = 1\n«b|\'a\'|c» = 1\n«a|"\\u0061"|b».y = 1\n«|a.z = 1\n|c.z = 1\n|b.w.v = 1\n»'),
    ((0, 3, 0, 0), '«=abc».«=xy» = 1\n«=abc».z = 1\n«=abc».«=vw» = 1\n«=abc».u = 1\n'),
    ((1, 0, 2, 0), '[t]\n«# c\n|»a.x = 1 # d\n«b|"\u00e9" = 1\n\n# e\nb».q = 1\n«|# f\n»«a|c|b».y = «1|[\n2\n]|"""\n"""»\n[[t.u]]\na.x = 1\n«b = 1\n|»a.y = 1\n'),
    ((0, 0, 0, 0), 't = {«a|b».x = 1, «b = 2|a.z = 1|"b" = 3», a.y = {«c.x = 1|c.y = 2», d = 1, c.z = 1}}\n[b]\nx = [[{«a|b».x = 1,\n# c\nb.y = 2,\na.y = 1}]]\n'),
    ((0, 0, 0, 0), '[«a|b».x]\n«y = 1\n|»[«b|"a"»]\n[«a|\'b\'|"\\x61"».y]\n«|[[a.z]]\n|[c]\n»'),
    ((0, 0, 3, 0), '[«=abc».«=xy»]\n[«=abc».z]\n[«=abc».«=vw»]\n[[«=abc».u]]\n'),
    ((0, 0, 2, 0), 'a = 1\n\n# c\n[[«t|u»]] # d\n# e\nx = 1\n\n# f\n[«u|t.b|v»]\n# g\n\n[[«t|t.c»]]\n'),
    ((0, 2, 1, 0), '[«=ab».x]\nc.x = 1\n«d = 1\n|»c.y = 1\n[«=ab».y]\n[«=ab».z]\n'),
    ((0, 1, 0, 0), '[a.x]\nc.x = 1\n«d = 1\n|»c.y = 1\n[b]\n[a.z]\n'),
    # empty keys
    ((0, 0, 0, 0), '«""|\'\'|a|" "».«""|b» = «1|{"" = 1}|[{""."" = 1}, {"" = 2}]»\n[«"".t|"".\'\'.t|d»]\n«"" = 1\n|»'),
    ((3, 0, 0, 0), '«""|a|"\\u0020"» = 1\n[[«"".«b|""»|b.""»]]\n«"".x = 1\n"".y = 2\n|»[[«b|c»]]\n«""|d» = 1\n'.replace('"".«b|""»|b.""', '"" . b|b.""')),
    ((2, 0, 0, 0), '\'\' = 1\n[t]\n«"" = «1|"a"»|a = {"" = []}|[t.""]»\n'.replace('«1|"a"»', '"a"')),
    ((1, 0, 0, 0), '"" = 1\n[t]\n"" = 1\n'),
    ((0, 0, 0, 1), '"" = 1\n«"a"|\' \'» = {}\n'),
    # directives
    ((0, 0, 0, 0), '«|' + NQD + '\n|' + NQT + '\n|' + NQD + '\n' + NQT + '\n»«\n|»a.x = 1\nb = 1\n«|' + NQD + '\n»a.y = 1\n[t.x]\na.x = 1\nb = 1\na.y = 1\n[«d|t.e»]\n[t.y]\n'.replace('«\n|»', '\n')),
    ((0, 0, 0, 0), '«' + NQT + '|' + NQD + '|# c»\n\n[t.x]\na.x = 1\nb = 1\na.y = 1\n[«d|t.e»]\n[t.y]\n'),
    ((0, 3, 0, 0), '«# c\n|' + NQD + '\n|»[t] «|# d»\na.x = 1\nb = 1\na.y = 1\n[t.u]\na.x = 1\nb = 1\na.y = 1\n'),
    ((0, 3, 0, 0), '[«t]|[t]]» «# d|' + NQD + '»\na.x = 1\nb = 1\na.y = 1\n[t.u]\na.x = 1\nb = 1\na.y = 1\n'),
    ((0, 3, 0, 0), '«# c\n|' + NQD + '\n|»t = {a.x = 1, b = 2, a.y = 3} «|# d»\nv = {a.x = 1, b = 2, a.y = «3|{c = 1}»} «|# d|' + NQD + '»\n«u = {a.x = 1, b = 2, a.y = 3}\n|»'),
    ((0, 0, 0, 0), '«|' + NQE + '\n»«""|a» = «1|{"" = 1}|{"".x = 1}» «# c|' + NQE + '»\n«|' + NQE + '\n»[«"".a|a.""|b»]\n«""|a» = 1 «|' + NQE + '»\n'),
]

# directives: line of the value, 1 if the schema does not use the rule, schema, document, rule
def kv(s, more=''):
    return '{"type":"object","properties":{"a":%s,"b":%s}%s}' % (s, s, more)
INTS = '{"type":"integer","minimum":3,"maximum":5,"exclusiveMinimum":3,"exclusiveMaximum":5,"multipleOf":2,"enum":[4,6,3]}'
FLTS = '{"type":"number","minimum":3,"maximum":5,"exclusiveMinimum":3,"exclusiveMaximum":5,"multipleOf":2,"const":4}'
STRS = '{"type":"string","minLength":2,"maxLength":3,"pattern":"^a","enum":["ab","b","aabb"],"format":"ipv4"}'
NOQA = [
    (1, 0, kv(INTS), '# @\na = «2|3|4|5|7|"x"»\nb = «2|7|1.5»\n', 'integer-«minimum|maximum|exclusive-minimum|exclusive-maximum|multiple-of»'),
    (0, 0, kv(INTS), 'a = «2|4|7|"x"» # @\nb = 2\n', '«enum|type-mismatch|integer-minimum|const-value|deprecated»'),
    (1, 0, kv(FLTS), '# @\na = «2.0|3.0|4.0|5.0|7.5|"x"»\nb = «2.5|7.0»\n', 'float-«minimum|maximum|exclusive-minimum|exclusive-maximum|multiple-of»'),
    (0, 0, kv(FLTS), 'a = «2.0|4.0|true» # @\nb = 7.0\n', '«const-value|type-mismatch|float-minimum|enum»'),
    (0, 0, kv(STRS), 'a = «"a"|"b"|"aabb"|"ab"|1» # @\nb = "c"\n', '«string-min-length|string-max-length|string-pattern|enum|type-mismatch|string-format»'),
    (1, 0, kv('{"type":"«boolean|integer»","const":«true|false»}'), '# @\na = «true|false|1»\nb = 2\n', '«const-value|type-mismatch»'),
    (1, 0, kv('{"«type":"integer|format":"local-date|format":"offset-date-time»"}'), '# @\na = «1979-05-27|1979-05-27T07:32:00Z|07:32:00|1979-05-27T07:32:00»\nb = "x"\n', '«type-mismatch|deprecated»'),
    (1, 0, kv('{"enum":["1979-05-27","x",1.5,true]}'), '# @\na = «1979-05-27|"y"|1|1.5|false»\nb = "z"\n', '«enum|type-mismatch|const-value»'),
    (1, 0, kv('{"const":"x"}'), '# @\na = «1979-05-27|"y"|1|1.5|false|"x"|[]|{}»\nb = "z"\n', '«enum|const-value»'),
    (1, 0, kv('{"«deprecated":true|title":"x»"' .replace('|title":"x»"', '|readOnly":true»') + ',"type":"«integer|string»"}'), '# @\na = 1\nb = 1\n', '«deprecated|type-mismatch»'),
    (1, 0, kv('{"not":{"«minimum|maximum»":3}}'), '# @\na = «2|3|4»\nb = 3\n', '«not-schema-match|type-mismatch»'),
    (1, 0, kv('{"oneOf":[{"minimum":3},{"maximum":«5|2»}]}'), '# @\na = «2|4|6»\nb = 4\n', '«one-of-multiple-match|deprecated»'),
    # arrays
    (1, 0, kv('{"type":"«array|string»","minItems":2,"maxItems":3,"uniqueItems":true,"items":{"type":"integer"}}'), '# @\na = [«1|1, 1|1, 2, 3, 1|"x", 1»]\nb = [«1|1, 1|1, 2, 3, 1»]\n', 'array-«min-values|max-values|unique-values»'),
    (2, 0, kv('{"type":"array","minItems":3,"items":{"minimum":2,"type":"integer"}}'), 'a = [\n# @\n«1|"x"|2»,\n«1|"x"»\n]\nb = 2\n', '«integer-minimum|type-mismatch»'),
    (1, 0, kv('{"type":"array","minItems":3,"items":{"minimum":2,"type":"integer"}}'), 'a = [\n«1|"x"|2», # @\n«1|"x"»\n]\nb = 2\n', '«integer-minimum|type-mismatch»'),
    (2, 0, kv('{"type":"array","items":{"type":"object","properties":{"x":{"minimum":2}},"required":["y"]}}'), 'a = [\n# @\n{x = 1},\n{x = 1}\n]\n', '«table-key-required|type-mismatch»'),
    # tables
    (1, 0, kv('{"type":"object","minProperties":2,"maxProperties":3,"required":["x"],"properties":{"x":{"minimum":2}}}'), '# @\n[a]\n«x = 1|y = 1|y = 1\nx = 1\nz = 2\nw = 1»\n[b]\n', 'table-«min-keys|max-keys|key-required»'),
    (0, 0, kv('{"type":"object","minProperties":2,"maxProperties":3,"required":["x"],"properties":{"x":{"minimum":2}}}'), '[a] # @\n«x = 1|y = 1|y = 1\nx = 1\nz = 2\nw = 1»\n[b]\n', 'table-«min-keys|max-keys|key-required»'),
    (1, 0, kv('{"type":"object","minProperties":2,"required":["x"],"properties":{"x":{"minimum":2}}}'), '# @\na = {«x = 1|y = 1|»}\nb = {}\n', 'table-«min-keys|key-required»'),
    (1, 0, kv('{"type":"«integer|object|array»"}'), '# @\n«[a]|[[a]]|a = {}|a = []»\n«b.x = 1\n|»', 'type-mismatch'),
    (1, 0, kv('{"type":"object","additionalProperties":false,"properties":{"x":{}}}'), '[«a]|b]»\n«x|z» = 1 # @\ny = 1\n', 'key-not-allowed'),
    (2, 0, kv('{"type":"object","additionalProperties":false,"properties":{"x":{}}}', ',"additionalProperties":false'), '[a]\n# @\n[«a.x|a.z|c|b.z»]\n[«d|a.y»]\n', 'key-not-allowed'),
    (1, 0, kv('{"type":"object","patternProperties":{"^x":{}},"additionalProperties":false}'), '[a]\n«x|z» = 1 # @\ny = 1\n', '«key-pattern|key-not-allowed»'),
    (1, 0, kv('{"type":"object","propertyNames":{"«pattern":"^x"|maxLength":1|enum":["x"]»}}'), '[a]\n«x|zz» = 1 # @\nyy = 1\n', '«key-pattern|string-max-length|string-pattern|enum»'),
    (2, 0, '{"type":"object","properties":{"t":{"type":"array","minItems":3,"items":{"type":"object","minProperties":2}}}}', '[[t]]\nx = 1\n[[t]]\n# @\n\n«x = 1|x = 1\ny = 2»\n', '«table-min-keys|table-max-keys»'),
    (1, 0, '{"type":"object","properties":{"t":{"type":"array","minItems":3,"items":{"type":"object","minProperties":2}}}}', '# @\n[[t]]\nx = 1\n«[[t]]\n[[t]]\n|[[t]]\n|[t.x]\n»', 'array-«min-values|max-values»'),
    (1, 0, '{"type":"object","properties":{"t":{"type":"object","minProperties":2,"properties":{"u":{"type":"object","minProperties":2}}}}}', '# @\n[t.u]\nx = 1\n', '«table-min-keys|table-max-keys»'),
    (1, 0, '{"type":"object","properties":{"t":{"type":"object","minProperties":2,"properties":{"u":{"type":"integer","minimum":2}}}}}', '# @\nt.u = 1\n', '«table-min-keys|table-max-keys|integer-minimum|type-mismatch»'),
    (2, 0, '{"type":"object","minProperties":«1|3»,"required":["z"],"properties":{"b":{"type":"object","minProperties":3}}}', '# @\n\na = 1\n[b]\n', '«table-min-keys|table-key-required|table-max-keys»'),
    # combinators
    (1, 0, '{"type":"object","properties":{"a":{"$ref":"#/$defs/x"},"b":{"$ref":"#/$defs/x"}},"$defs":{"x":{"type":"integer","minimum":3}}}', '# @\na = «2|"x"»\nb = 2\n', '«integer-minimum|type-mismatch»'),
    (1, 0, kv('{"if":{"type":"integer"},"then":{"minimum":3},"else":{"type":"string","minLength":2}}'), '# @\na = «2|"x"|true»\nb = 2\n', '«integer-minimum|string-min-length|type-mismatch»'),
    # not used by the schema
    (1, 1, kv('{"type":"integer"}'), '# @\na = 1\nb = 2\n', 'integer-«minimum|maximum|exclusive-minimum|exclusive-maximum|multiple-of»'),
    (0, 1, kv('{"type":"integer"}'), 'a = 1 # @\nb = 2\n', '«const-value|enum|deprecated»'),
    (1, 1, kv('{"type":"number"}'), '# @\na = 1.5\nb = 2\n', 'float-«minimum|maximum|exclusive-minimum|exclusive-maximum|multiple-of»'),
    (1, 1, kv('{"type":"string"}'), '# @\na = "x"\nb = 2\n', '«string-min-length|string-max-length|string-pattern|string-format|const-value|enum|deprecated»'),
    (1, 1, kv('{"type":"array"}'), '# @\na = [1]\nb = 2\n', '«array-min-values|array-max-values|array-unique-values|deprecated»'),
    (1, 1, kv('{"type":"object"}'), '# @\n«a = {}|[a]»\nb = 2\n', '«table-min-keys|table-max-keys»'),
]

NOQAK = [
    (1, 0, kv('{"oneOf":[{"type":"integer","minimum":3},{"type":"integer","maximum":1}]}'), '# @\na = «2|3|0»\nb = 2\n', '«integer-minimum|integer-maximum|type-mismatch»'),
(1, 0, kv('{"anyOf":[{"type":"integer","minimum":3},{"type":"integer","maximum":1}]}'), '# @\na = «2|3|0»\nb = 2\n', '«integer-minimum|integer-maximum|type-mismatch»'),
    (1, 0, kv('{"allOf":[{"type":"integer","minimum":3},{"type":"integer","minimum":1}]}'), '# @\na = «2|3|0»\nb = 2\n', '«integer-minimum|integer-maximum|type-mismatch»'),
    (1, 0, kv('{"allOf":[{"type":"integer","minimum":3},{"type":"integer","maximum":1}]}'), '# @\na = «2|0»\nb = 2\n', 'integer-minimum')]

# configuration: (config, path of the document, path of the configuration)
CP = '«/w/tombi.toml|/w/.config/tombi.toml|/w/x/pyproject.toml|/w/.config/pyproject.toml||/tombi.toml|/wx/tombi.toml»'
WIDTHS = 'array-bracket-space-width|array-comma-space-width|indent-width|inline-table-brace-space-width|inline-table-comma-space-width|key-value-equals-sign-space-width|trailing-comment-space-width|table-blank-lines'
BOOLS = 'indent-sub-tables|indent-table-key-value-pairs|key-value-equals-sign-alignment|trailing-comment-alignment'
ALLOPT = '''[format.rules]
array-bracket-space-width = 1
array-comma-space-width = 0
comment-style = "preserve"
date-time-delimiter = "space"
group-blank-lines-limit = 2
indent-style = "tab"
indent-sub-tables = true
indent-table-key-value-pairs = true
indent-width = 3
inline-table-brace-space-width = 0
inline-table-comma-space-width = 2
key-quote-style = "single"
key-value-equals-sign-alignment = true
key-value-equals-sign-space-width = 0
line-ending = "crlf"
line-width = 40
string-quote-style = "preserve"
table-blank-lines = 3
trailing-comment-alignment = true
trailing-comment-space-width = 4
[lint.rules]
key-empty = "error"
dotted-keys-out-of-order = "off"
tables-out-of-order = "error"
'''
OV = '[[overrides]]\nfiles.include = ["a.toml"]\n'
OPTT = [
    # which files
    ('[files]\ninclude = ["«a.toml|*.toml|**/*.toml|b/**|b/*.toml|**/a.toml|a?toml|/w/a.toml»"]\n«exclude = ["b/**"]|exclude = ["**/a.toml"]|exclude = []|»\n', '/w/«a.toml|b/a.toml|b/c/a.toml|a.tomlx»', CP),
    ('[files]\nexclude = ["«a.toml|b|b/*|w/**|**»"«, "c.toml"|»]\n', '/w/«a.toml|b/a.toml|c.toml|b/c/d.toml»', CP),
    ('«files = {}|files.respect-ignore-files = false|[format]|toml-version = "v1.1.0"»\n', '«/w/a.toml|/a.toml|a.toml|b/a.json|/w/a»', CP),
    # which override
    ('[format.rules]\nindent-width = 4\n[lint.rules]\nkey-empty = "error"\n[[overrides]]\nfiles.include = ["«a.toml|b/*.toml|**/*.toml|x»"«, "b/**"|»]\n«files.exclude = ["b/**"]|»\n«format.enabled = false|format.enabled = true|format.rules.indent-width = 3|lint.enabled = false|lint.rules.key-empty = "off"|lint.rules.tables-out-of-order = "error"»\n', '/w/«a.toml|b/a.toml|b/c/a.toml»', '/w/«tombi.toml|.config/tombi.toml|b/tombi.toml»'),
    ('[format.rules]\nindent-width = 4\n[[overrides]]\nfiles.include = ["«a.toml|b/*.toml»"]\nformat.rules.«indent-width = 3|line-width = 60»\nlint.rules.key-empty = "«off|error»"\n[[overrides]]\nfiles.include = ["«*.toml|**/*.toml»"]\nformat.rules.indent-width = 5\nlint.rules.key-empty = "warn"\n', '/w/«a.toml|b/a.toml|c.toml»', '/w/tombi.toml'),
    # which rules
    (ALLOPT + OV + '[overrides.format.rules]\n«' + WIDTHS + '» = «0|2|9»\n', '/w/«a|b».toml', '/w/tombi.toml'),
    (ALLOPT + OV + '[overrides.format.rules]\n«' + BOOLS + '» = «true|false»\n', '/w/«a|b».toml', '/w/tombi.toml'),
    (ALLOPT + OV + '[overrides.format.rules]\n«indent-style = "space"|line-ending = "lf"|comment-style = "normalize"|date-time-delimiter = "T"|date-time-delimiter = "preserve"|key-quote-style = "double"|key-quote-style = "preserve"|string-quote-style = "double"|string-quote-style = "single"»\n', '/w/«a|b».toml', '/w/tombi.toml'),
    (ALLOPT + OV + '[overrides.lint.rules]\n«key-empty|dotted-keys-out-of-order|tables-out-of-order» = "«off|warn|error»"\n', '/w/«a|b».toml', '/w/tombi.toml'),
    (OV + '[overrides.format.rules]\n«' + WIDTHS + '» = «0|2|9»\n«' + BOOLS + '» = «true|false»\n', '/w/«a|b».toml', '/w/tombi.toml'),
    (OV + ALLOPT.replace('[format.', '[overrides.format.').replace('[lint.', '[overrides.lint.') + '[format.rules]\n«' + WIDTHS + '» = «0|2»\n[lint.rules]\n«key-empty|dotted-keys-out-of-order|tables-out-of-order» = "«off|warn|error»"\n', '/w/«a|b».toml', '/w/tombi.toml'),
    (ALLOPT + OV + '[overrides.format.rules]\n«group-blank-lines-limit|line-width» = «1|3»\n', '/w/«a|b».toml', '/w/tombi.toml'),
    (ALLOPT, '/w/«a|b».toml', '/w/tombi.toml'),
]

# which schema applies where: (config, path of the document, path of the configuration, document, catalogs)
NOCAT = '[schema]\ncatalog.paths = []\n'
def entry(n, inc, root='', more=''):
    r = f'root = {root}\n' if root else ''
    return f'[[schemas]]\n{r}path = "https://t.test/s{n}.json"\ninclude = [{inc}]\n{more}'
ASSOCD = 'v = 101\nd = 102\nw = 103\n[t]\nv = 104\nw = 105\n[tool.x]\nv = 106\nw = 107\nd = 108\nt.v = 109\n[tool.y]\nv = 110\n[[l]]\nv = 111\n[[l]]\nv = 112\nw = 113\n'
INC = '"«a.toml|b/a.toml|b/*.toml|**/*.toml|**/b/*.toml|*.toml|/w/a.toml|a.tom|?.toml|x»"'
PTH = '/w/«a.toml|b/a.toml|b.toml|xa.toml|.a.toml»'
CPS = '/w/«tombi.toml|.config/tombi.toml|b/tombi.toml|pyproject.toml»'
ASSOCT = [
    (NOCAT + entry(1, INC), PTH, CPS, 'v = 101\nw = 102\n', ''),
    (NOCAT + entry(1, '"**/*.toml"', more=f'exclude = [{INC}«, "b/a.toml"|»]\n'), PTH, CPS, 'v = 101\nw = 102\n', ''),
    (NOCAT + entry(1, '"x", ' + INC), '«/a.toml|/w/b/a.toml|/wx/a.toml|/w/a.toml»', '«/tombi.toml|/w/tombi.toml||/w/b/tombi.toml»', 'v = 101\nw = 102\n', ''),
    # the first entry that fits
    ('«[schema]\nenabled = false|[schema]\nenabled = true|[schema]»\ncatalog.paths = [«"https://t.test/c1.json"|"https://t.test/c2.json", "https://t.test/c1.json"|"https://t.test/c1.json", "https://t.test/c2.json"|»]\n' + entry(1, '"«a|x».toml"') + entry(2, '"«a|b|x».toml"'), '/w/«a|b».toml', '/w/tombi.toml', 'v = 101\nw = 102\n', '3 a.toml\n4 a.toml\n\n4 x.toml b.toml'),
    ('[schema]\ncatalog.paths = ["https://t.test/c1.json"]\n' + entry(2, '"a.toml"', '"«v|t|l[*].v»"'), '/w/«a|b».toml', '/w/tombi.toml', 'v = 101\nw = 102\nt.v = 103\nl=[{v=104}]\n', '«1|5|3» «a.toml|b.toml a.toml|a.json|a.json a.toml»'),
    (entry(2, '"«a|b».toml"', '"tool.x"') + entry(1, '"a.toml"') + entry(3, '"«a|b».toml"', '"tool.x"') + entry(4, '"«a|b».toml"') + entry(4, '"«a|b».toml"', '"tool.«y|x»"') + NOCAT, '/w/a.toml', '/w/tombi.toml', ASSOCD, ''),
    # where a sub-schema applies
    (NOCAT + '«' + entry(1, '"a.toml"') + '|»' + entry('«2|5»', '"a.toml"', "\"«tool.x|tool.*|*|*.*|v|t|t.v|l|l[*]|l[0]|l[1]|l[1].v|l[*].v|'tool'.x|tool.'x'|tool.'*'|tool.x.t|tool|w|tool.x.w|x|tool[0]|l.v»\""), '/w/a.toml', '/w/tombi.toml', ASSOCD, ''),
    (NOCAT + entry(1, '"a.toml"') + entry(2, '"a.toml"', '"«tool.*|*.x|tool.x»"') + entry(3, '"a.toml"', '"«tool.x|tool.y|*.y»"') + entry(4, '"a.toml"', '"«tool.x.t|tool.*.t|*.*.*|tool.x.v»"'), '/w/a.toml', '/w/tombi.toml', 'v = 101\n[tool.x]\nv = 102\nw = 103\nt.v = 104\n[tool.y]\nv = 105\nt.v = 106\n', ''),
    (NOCAT + '«' + entry(1, '"a.toml"') + '|»' + entry(2, '"a.toml"', '"«open[*]|open[1]|open[*].p|any.p|any|any[*]|any[0].p|any.p.q|open[0][0]|z.p|z[*]|z[1].p|t.w.p»"'), '/w/a.toml', '/w/tombi.toml', '«open|any|z» = «[{v = 101}, {p = {v = 102}}]|{p = {v = 101, q = {v = 102, w = 103}}}|[[{v = 101}], {p = [104]}]|[[{v = 101}, 105], 106]»\nt.w = {p = {v = 107}}\n', ''),
    (NOCAT + entry(2, '"a.toml"', '''"«a b|'a b'|'a.b'|a.b|'a'.b|*|'*'|'a b'.c|é|a-b|a[0]»"'''), '/w/a.toml', '/w/tombi.toml', '«"a b"|"a.b"|a.b|"*"|é|a-b» = «101|{v = 102, c = 103}|[104, 105]»\n', ''),
    # strict
    ('[schema]\ncatalog.paths = []\n«strict = false\n|strict = true\n|»' + entry(1, '"a.toml"', more='«strict = false|strict = true|»\n') + entry(2, '"a.toml"', '"t"', more='«strict = false|strict = true|»\n'), '/w/a.toml', '/w/tombi.toml', '«#:tombi schema.strict = false\n|#:tombi schema.strict = true\n|»v = 101\nw = 102\nt.w = 103\ntool.w = 104\nl = [{v = 105, w = 106}]\n', ''),
    ('[schema]\ncatalog.paths = []\n«strict = false\n|»' + entry(2, '"a.toml"', '"t"', more='«strict = false|strict = true|»\n') + entry(3, '"a.toml"', '"tool.«x|*|w»"', more='«strict = false|strict = true|»\n') + '«' + entry(1, '"a.toml"', more='strict = false\n') + '|' + entry(1, '"a.toml"') + '|»', '/w/a.toml', '/w/tombi.toml', 'v = 101\nw = 102\nt.w = 103\ntool.w = 104\ntool.x.w = 105\n', ''),
    # deprecated
    (NOCAT + entry(1, '"a.toml"', more='«lint.rules.deprecated = "off"|lint.rules.deprecated = "warn"|lint.rules.deprecated = "error"|»\n«[[schemas.overrides]]\ntargets = ["«d|*|tool.*|tool.x.d|*.d|»"]\nlint.rules.deprecated = "«error|off»"\n|»') + entry(2, '"a.toml"', '"tool.«x|*»"', more='lint.rules.deprecated = "«off|error»"\n'), '/w/a.toml', '/w/tombi.toml', 'd = 101\n[tool.x]\nd = 102\n', ''),
    (NOCAT + entry(1, '"a.toml"') + entry(2, '"a.toml"', '"tool.«x|*»"', more='«lint.rules.deprecated = "off"|»\n[[schemas.overrides]]\ntargets = ["«tool.x.d|tool.*.d|*|tool.x|tool.y.d|*.*.*», «d|tool.x.*|tool.*.d»"]\nlint.rules.deprecated = "«error|off|warn»"\n[[schemas.overrides]]\ntargets = ["«tool.x.d|tool.*.d»"]\nlint.rules.deprecated = "«off|error»"\n'.replace(', «d', '", "«d')), '/w/a.toml', '/w/tombi.toml', 'd = 101\n[tool.x]\nd = 102\n[tool.y]\nd = 103\n', ''),
    (NOCAT + entry(2, '"a.toml"', '"tool.x"', more='«lint.rules.deprecated = "error"|lint.rules.deprecated = "off"|»\n') + entry(1, '"a.toml"', more='«lint.rules.deprecated = "error"|»\n') + entry(3, '"a.toml"', '"tool.y"', more='lint.rules.deprecated = "«off|warn»"\n'), '/w/a.toml', '/w/tombi.toml', 'd = 101\n[tool.x]\nd = 102\n[tool.y]\nd = 103\n', ''),
    # the directive of the document
    ('[schema]\ncatalog.paths = []\n«strict = false\n|»' + entry('«1|3»', '"«a|b».toml"', more='«strict = true|strict = false|»\n') + entry(2, '"a.toml"', '"tool.«x|*»"', more='«strict = true|»\n'), '/w/a.toml', '/w/tombi.toml', '#:schema https://t.test/s«4|1».json\n\nv = 101\nw = 102\n[tool.x]\nv = 103\nw = 104\n', ''),
]
ASSOCF = [
    (NOCAT + entry(2, '"a.toml"', '"tool.x"', more='lint.rules.deprecated = "«error|off|warn»"\n') + entry(3, '"a.toml"', '"tool.y"', more='«lint.rules.deprecated = "off"|lint.rules.deprecated = "error"|»\n'), '/w/a.toml', '/w/tombi.toml', '[tool.x]\nd = 102\n[tool.y]\nd = 103\n', ''),
]
TKO = 'format.rules.table-keys-order'
AVO = 'format.rules.array-values-order'
def over(targets, rules):
    return f'[[schemas.overrides]]\ntargets = [{targets}]\n{rules}\n'
ON = '«|%s.enabled = false\n|%s.enabled = true\n»'
TSET = '«.enabled = false|.enabled = true| = "ascending"| = "descending"| = "version-sort"| = "schema"»'
ASET = '«.enabled = false|.enabled = true| = "ascending"| = "descending"| = "version-sort"»'
# b before a before c in the order of the schema
TSCH = '{"type":"object","properties":{"b":{},"a":{},"c":{},"a10":{},"a9":{}},%s:"%s"}'
def tsch(o='«schema|descending»'):
    return TSCH % (KO, o)
ASCH = '{"type":"array",%s:"%s","items":{"type":"integer"}}'
def asch(o='«ascending|descending»'):
    return ASCH % (VO, o)
def osch(o, props, rest=''):
    return '{"type":"object",%s:"%s","properties":{%s}%s}' % (KO, o, props, rest)
ORDERT = [
    # settings of the entry and of one override: root, key, nested
    (
     NOCAT + entry(1, '"a.toml"', more=ON % (TKO, TKO)) + over('"«|t|*|t.u|*.u|u|t[0]»"', TKO + TSET),
     osch('descending', '"t":' + osch('«schema|version-sort»', '"b":{},"a":{},"c":{},"u":' + tsch('descending'))),
     'a = 1\nc = 2\nb = 3\n[t]\na10 = 1\nc = 2\na = 3\nb = 4\na9 = 5\nu = {a = 1, c = 1, b = 1}\n', ''),
    # arrays
    (NOCAT + entry(1, '"a.toml"', more=ON % (AVO, AVO)) + over('"«a|*|t.a|*.a|l[0]|l[*]|l[1]|l|»"', AVO + ASET) + over('"«a|l[1]|*.*»"', AVO + '« = "ascending"|.enabled = false»'),
     '{"type":"object","properties":{"a":%s,"t":{"type":"object","properties":{"a":%s}},"l":{"type":"array","items":%s}}}' % (asch(), asch('descending'), asch('ascending')),
     'a = [2, 10, 1]\nl = [[2, 3, 1], [5, 6, 4]]\nt = {a = [8, 9, 7]}\nz = [2, 3, 1]\n', ''),
    # the most specific override wins
    (NOCAT + entry(1, '"a.toml"', more=ON % (TKO, TKO)) + over('"«*|t»"', TKO + TSET) + over('"«*|t|u»", "«t|x»"', TKO + '«.enabled = false|.enabled = true| = "ascending"| = "descending"»') ,
     osch('ascending', '"t":' + tsch() + ',"u":' + tsch('descending')),
     '[u]\nc = 1\na = 2\nb = 3\n[t]\na9 = 1\nc = 2\na10 = 3\nb = 4\n', ''),
    # kinds do not mix
    (NOCAT + entry(1, '"a.toml"', more=ON % (AVO, TKO)) + over('"«|t|t.a»"', '«%s|%s».enabled = «true|false»' % (AVO, TKO)),
     osch('«ascending|descending»', '"t":' + osch('descending', '"a":' + asch() + ',"b":{}')),
     'x = 1\ny = 2\n[t]\na = [2, 3, 1]\nb = 1\nc = 1\n', ''),
    # sub-schemas
    (NOCAT + entry(1, '"a.toml"', more=TKO + '.enabled = «true|false»\n') + over('"«t|*|x»"', TKO + TSET) + entry(2, '"a.toml"', '"«t|*|t.u»"', TKO + '.enabled = «true|false»\n') + over('"«t|*|t.u»"', TKO + '«.enabled = false|.enabled = true| = "ascending"»'),
     osch('ascending', '"t":' + tsch('ascending')) + '\n' + osch('descending', '"a":{},"b":{}', ',"additionalProperties":' + tsch('schema')),
     'a = 1\nc = 2\nb = 3\n[t]\na = 1\nc = 2\nb = 3\nu = {a = 1, c = 1, b = 1}\n', ''),
    (NOCAT + '«' + entry(1, '"a.toml"') + '|»' + entry(2, '"a.toml"', '"«l[0]|l[*]|t.l|*.l»"', AVO + '.enabled = «true|false»\n') + over('"«l[0]|l[*]|t.l|*.l»"', AVO + ASET),
     '{"type":"object","properties":{"l":{"type":"array","items":{"type":"array"}}}}\n' + asch('ascending'),
     'l = [[2, 3, 1], [5, 6, 4]]\nt = {l = [8, 9, 7]}\n', ''),
    (NOCAT + '«' + entry(1, '"a.toml"') + '|»' + entry(2, '"a.toml"', '"«l[0]|l[*]|t.l|l[1].u»"', TKO + '.enabled = «true|false»\n') + over('"«l[0]|l[*].u|t.l|*[*]»"', TKO + TSET),
     '{"type":"object","properties":{"l":{"type":"array","items":{"type":"object"}}}}\n' + osch('descending', '"b":{},"a":{},"u":' + tsch('ascending')),
     'l = [{b = 1, c = 2, a = 3}, {b = 1, u = {b = 1, a = 2}, c = 4}]\nt = {l = {a = 1, b = 2}}\n', ''),
    (NOCAT + entry(2, '"a.toml"', '"«t|*.*»"', TKO + '.enabled = «true|false»\n') + over('"«t|*.*|t.u»"', TKO + TSET),
     '\n' + osch('descending', '"b":{},"a":{},"u":' + tsch('ascending')), 't.b = 1\nt.a = 1\nt.u.a = 1\nt.u.b = 1\nt.c = 2\nt.u.c = 1\ns.v = {b = 1, a = 2, c = 3}\n', ''),
    # headers
    (NOCAT + entry(1, '"a.toml"', more=ON % (TKO, TKO)) + over('"«|t|*|t.b»"', TKO + TSET),
     osch('descending', '"t":' + osch('«schema|version-sort»', '"b":{},"a":{},"c":{}') + ',"s":{}'),
     '[t]\n[t.c]\nb = 1\na = 1\n[t.a]\n[t.b]\nb = 2\na = 2\n[s]\n[u]\n', ''),
    (NOCAT + entry(1, '"a.toml"', more=TKO + '.enabled = «true|false»\n') + over('"«|t|u»"', TKO + TSET) + over('"«|t|u»"', TKO + ' = "«ascending|descending»"'),
     osch('ascending', '"t":' + osch('«schema|descending»', '"b":{},"a":{},"c":{}') + ',"s":{}'),
     '[t]\n[t.c]\n[t.a]\n[t.b]\n[u.b]\n[u.c]\n[u.a]\n[s]\n', ''),
    (NOCAT + entry(1, '"a.toml"', more=TKO + '.enabled = «true|false»\n') + entry(2, '"a.toml"', '"«t|t.b|u|u.a»"', TKO + '.enabled = «true|false»\n') + over('"«t|t.b|u»"', TKO + '«.enabled = false| = "ascending"»'),
     osch('ascending', '"t":' + tsch('ascending')) + '\n' + tsch('«descending|schema»'),
     '[t]\n[t.c]\n[t.a]\n[t.b]\nb = 1\nc = 1\na = 1\n[u.b]\n[u.c]\n[u.a]\nb = 1\nc = 1\na = 1\n', ''),
    # arrays of tables
    (NOCAT + entry(1, '"a.toml"', more=ON % (TKO, TKO)) + over('"«t[0]|t[*]|t[1]|t[*].u|*[*].u|t»"', TKO + TSET),
     '{"type":"object","properties":{"t":{"type":"array","items":%s}}}' % osch('«schema|ascending»', '"b":{},"a":{},"u":' + tsch('descending')),
     '[[t]]\nc = 1\na = 2\nb = 3\n[[t]]\na = 2\nc = 1\nb = 3\n[t.u]\na = 1\nb = 1\nc = 1\n', ''),
    # directives come first
    (NOCAT + entry(1, '"a.toml"', more=ON % (TKO, TKO)) + over('"«t|»"', TKO + TSET),
     osch('ascending', '"t":' + tsch('descending')),
     'b = 1\nc = 1\na = 1\n# tombi: format.rules.table-keys-order« = "ascending"| = "descending"|.disabled = true»\n[t]\nc = 1\na = 2\nb = 3\n', '.t'),
    (NOCAT + entry(1, '"a.toml"', more=ON % (AVO, AVO)) + over('"«t|a»"', AVO + ASET),
     '{"type":"object","properties":{"a":%s}}' % asch(),
     '# tombi: format.rules.array-values-order« = "ascending"| = "descending"|.disabled = true»\na = [2, 10, 1]\n', '.a'),
]


# C53: navigation in Cargo.toml: (root, a, b)
_NR = '[workspace]\nmembers = [«"a", "b"|"*"|"[ab]"»]\ndefault-members = ["b"]\nexclude = ["«b|c»"]\n[workspace.dependencies]\nb = «{ path = "b", features = ["x", "n"] }|"1"»\nl = "1"\n'
_NB = '[package]\nname = "b"\n[features]\nx = ["y"]\ny = []\n'
NAVT = [
    (_NR, '[package]\nname = "a"\nversion.workspace = true\n[«dev-|»dependencies]\nl = «"1"|{ workspace = true }»\n«b.workspace = true|b = { path = "../b" }|"b" = "1"»\n', _NB),
    ('[workspace]\nmembers = ["a", "b"]\n[workspace.dependencies.b]\npath = "«b|./b/|c»"\n',
     '[package]\nname = "a"\n[target.\'cfg(unix)\'.«build-|»dependencies.b]\n«workspace = true|path = "../b"|version = "1"»\nfeatures = ["«x|n»", "y"]\n[[bin]]\npath = "../src/n.rs"\n[[bin]]\npath = "../src/«m|n».rs"\n', _NB),
    ('[workspace]\nmembers = ["a", "b"]\ndependencies = { b = { path = "b" }, r = { package = "b", path = "b" } }\n',
     '[package]\nname = "a"\n[dependencies]\n«b|r» = { workspace = true, optional = true }\n[features]\nf = ["«dep:b|b|r|dep:r|g|n»"]\ng = ["«f|b/x|b?/y|r/x»"]\n', _NB),
    ('[workspace]\nmembers = ["a", "b"]\ndependencies = { r = { «package = "b", |»path = "«b|a»" } }\n',
     '[package]\nname = "a"\n[dependencies]\n«r.workspace = true|r = { path = "../b", package = "b" }|b = { path = "../b" }»\n', '[package]\nname = "«b|r»"\n[dev-dependencies]\na = { path = "../a" }\n'),
    ('[package]\nname = "r"\n[features]\nx = []\n[workspace]\nmembers = [«"a"|"a", "b"»]\n[workspace.dependencies]\nb = { path = "b" }\nr = { path = "«.|a/..»" }\n[dependencies]\nb = «{ workspace = true, features = ["y"] }|"1"»\n',
     '[package]\nname = "a"\n«|workspace = "../"\n»[dependencies]\nr = { «path = ".."|workspace = true», features = ["x"] }\n', _NB),
    ('[workspace]\nmembers = ["b", "a"]\n[workspace.dependencies]\n"b" = { path = \'b\' }\n', 'package.name = \'a\'\ndependencies = { "b" = { workspace = true, features = ["«x|\\u0078»"] } }\n',
     'package = { description = "«é|👩‍💻|a»", name = "b" }\nfeatures = { "x" = ["«y|x»"], y = [] }\n'),
]

# C54: (root, a)
_A = '[package]\nname = "a"\n'
REWT = [
    # insertion into [workspace.dependencies]
    ('[workspace]\nmembers = ["a"]\n[workspace.dependencies]\n«|# about b\n|# group\n\n»«b = "1"\n|b = { version = "1" } # b\n|"b" = "1"\n|»«|d = "2"|d.version = "2" # d\n|\n# about d\nd = "2"\n»«|# end|\n[x]\ny = 1\n|\n# about x\n[x]\n»',
     _A + '[dependencies]\n«a9 = "1"|c = \'1\'|e = { version = "1" }»\n'),
    ('[workspace]\nmembers = ["a"]\n[workspace.dependencies]«| # deps|\n\n»\n«b = "1"|c10 = "1"|c2 = "1"»«|\n[workspace.dependencies.d]\nversion = "1"\n|\n[workspace.dependencies.e]\nversion = "1"»«|\n»',
     _A + '[dependencies]\n«c9|c|d1» = «"1"|{ version = "1", features = ["x"] }|{ features = ["x"], version = "1", optional = true }» # keep\n'),
    ('[workspace]\nmembers = ["a"]\ndependencies = {«| »«b = "1"|b.version = "1"|»«|, d = "1"»«| »} # all\n',
     _A + '[«dev-|»dependencies]\n«a9|c|e» = "1"\n'),
    ('[workspace]\nmembers = ["a"]\n«dependencies.b = "1"\n|[workspace.dependencies.b]\nversion = "1"\n|[workspace.dependencies]\nb.version = "1"\nb.features = ["x"]\n|»',
     _A + '[dependencies.«b|c»]\n«version = "1"|features = ["x"]|version = "1"\nfeatures = ["x"] # keep»\n'),
    ('[workspace]\nmembers = ["a"]\ndependencies = {«| # all»\n«  # about b\n|  # group\n\n|»  b = «"1"|{ version = "1" }»«|, # b»\n}\n',
     '#:tombi toml-version = "v1.1.0"\n\n' + _A + '[dependencies]\n«a9|c» = { version = "1" }\n'),
    ('[workspace]\nmembers = ["a"]\ndependencies = {\n  b = "1"«,| # b\n  ,|, # b»«\n  # about d\n  d = "2"| d.version = "2"| # end|»«,| # last|, # last|»\n}«| # out»\n',
     '#:tombi toml-version = "v1.1.0"\n\n' + _A + '[dependencies]\n«a9|c|e» = "1"\n'),
    ('[workspace]\nmembers = ["a"]\ndependencies = {«| # all|\n  # only\n|\n  # one\n\n  # two»\n}«| # out»\n',
     '#:tombi toml-version = "v1.1.0"\n\n' + _A + '[dependencies]\na9 = "1"\n'),
    # inheriting
    ('[workspace]\nmembers = ["a"]\n[workspace.dependencies]\nb = "1"\n',
     _A + 'dependencies«.b = "1"|.b.version = "1"| = { b = "1" }| = { b = { version = "1" }, c = 1 }|.b = { version = "1" }»\n[«build-|»dependencies«.b»]\nversion = "2" # two\noptional = true\n'),
    ('[workspace]\nmembers = ["a"]\n[workspace.dependencies]\nb = "1"\n',
     _A + '[target.\'cfg(«u|é»nix)\'.dependencies]\n«b|"b"|\'b\'» = { «version = "1", features = ["x", \'y"z\'], optional = true|features = [\n  "x", # x\n], version = \'1\'|x.y = 1, version = "1"|version = "1", "default-features" = false, package = "\\"\\\\"» } # c\n'),
    ('[workspace]\nmembers = ["a"]\n[workspace.dependencies]\nb = "1"\n',
     _A + '[dependencies]\n# above\nb«.version| .version|."version"|. version» = «"1"|\'1\'|"""1"""» # c\n«b.features = ["x"]|b.optional = true\n|»\n'),
    # package fields
    ('[workspace]\nmembers = ["a"]\n[workspace.package]\nversion = "1"\nauthors = []\n«edition = "2024"|»\n',
     '[package]\nname = "a" # name\n«version|"version"|authors|edition|name2» = «"1"|["x", # x\n "y"]|{ workspace = true }|"""\n1"""» # c\n«|edition = "2021"»\n'),
    ('[workspace]\nmembers = ["a"]\n[workspace.package]\nversion = "1"\n',
     'package«.version = "1"\npackage.name = "a"| = { name = "a", version = "1" }| = { version = "1", name = "a" }|.name = "a"\npackage.version = "👩‍💻"»\n'),
    # converting
    ('[package]\nname = "r"\n[workspace]\nmembers = ["a"]\n[workspace.dependencies]\nb = «"1"|\'1\'|"""1"""|\'\'\'\n1\'\'\'» # c\n[dependencies]\nc = "é"\n',
     '[dependencies]\nb = «"1"|\'👩‍💻\'|"""1"""» # c\n[target.x.dev-dependencies]\n"b" = "1"#c\n'),
]
