"""Which functions of the library can reach an operation of the C or C++ library whose result depends on the global locale."""
from .values import Fn

CTYPE = {'isspace', 'isalpha', 'isalnum', 'isprint', 'ispunct', 'isgraph', 'iscntrl', 'isupper', 'islower', 'isblank', 'toupper', 'tolower',
         'iswspace', 'iswalpha', 'iswalnum', 'iswprint', 'iswpunct', 'iswgraph', 'iswcntrl', 'iswupper', 'iswlower', 'iswblank', 'towupper', 'towlower', 'iswdigit_l', 'iswctype'}
NUMBER = {'strtod', 'strtof', 'strtold', 'atof', 'wcstod', 'wcstof', 'wcstold'}
SCAN = {'sscanf', '__isoc99_sscanf', 'vsscanf', 'swscanf', '__isoc23_sscanf'}
MULTI = {'mbstowcs', 'wcstombs', 'mbrtowc', 'wcrtomb', 'mbtowc', 'wctomb', 'btowc', 'wctob', 'mbsrtowcs', 'wcsrtombs'}
OTHER = {'strcoll', 'strxfrm', 'wcscoll', 'setlocale', 'localeconv', 'strftime'}
NAMES = CTYPE | NUMBER | SCAN | MULTI | OTHER
FLOATTEXT = {'std::to_string', 'std::to_wstring'}


def uses(f):
    """[(instruction, name)] for the calls, and the addresses taken, of functions that depend on the global locale"""
    out = []
    imbued = False
    reads = []
    for b in f.blocks:
        for I in b:
            if I.o not in ('call', 'invoke'):
                continue
            for a in [I.f] + list(I.a or ()):
                if isinstance(a, (list, tuple)) and len(a) > 1 and a[0] == 1 and isinstance(a[1], Fn):
                    n = a[1].n
                    g = f.mod.funcs.get(n)
                    if n in NAMES:
                        out.append((I, n))
                    elif g is not None and g.qual in FLOATTEXT and ('double' in g.dem or 'float' in g.dem):
                        out.append((I, g.qual))
                    elif g is not None and g.base == 'imbue':
                        imbued = True
                    elif g is not None and g.base == '_M_extract' and 'istream' in g.qual:
                        reads.append((I, 'extraction of a number from a stream'))
    return out + ([] if imbued else reads)
