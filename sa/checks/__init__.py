"""Registry of property checks: id -> (function, level, how it is decided)."""
from . import content

VF = ('Interprocedural value-flow analysis (abstract interpretation over normal forms) of the repository code '
      'composed with a reference text; every path must agree.')

REGISTRY = {
    'C01': (content.c01, 'other', VF),
    'C02': (content.c02, 'other', VF),
    'C03': (content.c03, 'other', VF),
    'C04': (content.c04, 'other', VF),
    'C05': (content.c05, 'other', VF),
    'C06': (content.c06, 'other', VF),
    'C07': (content.c07, 'other', VF),
    'C08': (content.c08, 'other', VF),
    'C09': (content.c09, 'other', VF),
    'C10': (content.c10, 'other', VF),
    'C11': (content.c11, 'other', VF),
    'C12': (content.c12, 'other', VF),
    'C13': (content.c13, 'other', VF),
    'C14': (content.c14, 'other', VF),
    'C15': (content.c15, 'other', VF),
    'C16': (content.c16, 'other', VF),
    'C17': (content.c17, 'other', VF),
    'C18': (content.c18, 'other', VF),
    'C19': (content.c19, 'other', VF),
    'C20': (content.c20, 'other', VF),
    'C21': (content.c21, 'other', VF),
    'C22': (content.c22, 'other', VF),
    'C23': (content.c23, 'other', VF),
    'C24': (content.c24, 'other', VF),
    'C25': (content.c25, 'other', VF),
    'C26': (content.c26, 'other', VF),
    'C27': (content.c27, 'other', VF),
    'C28': (content.c28, 'other', VF),
    'C29': (content.c29, 'other', VF),
    'C30': (content.c30, 'other', VF),
    'C31': (content.c31, 'other', VF),
}
